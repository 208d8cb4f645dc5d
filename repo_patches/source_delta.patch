From 375e00285b3ea85e7ca0f29f255ec3349aaa7a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 01/28] fix: reset the structural delegation switch when a new
 job is set

A job that asked for StructuralDelegationConsistency left the switch on for
every later job, which then reported structural findings nobody asked for.
---
 src/driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index fe4902f..e3ab206 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -218,6 +218,7 @@ void Driver::SetJob(const json &user_job)
     current_job_.stats.interpretation_vertices.clear();
     current_job_.user_input_domain = d;
     current_job_.check_subdomains = user_job["SubDomain"];
+    current_job_.check_structural_delegations = false;
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
     current_job_.types_req = {};
@@ -381,6 +382,7 @@ void Driver::SetJob(string &domain_name)
     current_job_.stats.interpretation_vertices.clear();
     current_job_.user_input_domain = domain_name;
     current_job_.check_subdomains = true;
+    current_job_.check_structural_delegations = false;
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
     current_job_.types_req = {};
-- 
2.43.0


From 03cde5d2b480f27f526ea23444ef558c6ffcbab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 02/28] fix: do not mistake an owner name for the record type

---
 src/zone-file-parser.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index e6a6724..2af865a 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -336,16 +336,15 @@ struct Parser {
                                   "AAAA", "SRV", "DNAME", "RRSIG", "NSEC", "DS",  "SPF"};
 
         int index = -1;
-        int i = 0;
-        for (auto &field : current_record) {
-            string f(field);
+        // The first field is always the owner name (empty when omitted), even if it looks like a type.
+        for (int i = 1; i < (int)current_record.size(); i++) {
+            string f(current_record[i]);
             if (f.length() < 6) {
                 boost::to_upper(f);
                 if (std::find(std::begin(types), std::end(types), f) != std::end(types)) {
                     return i;
                 }
             }
-            i++;
         }
         return index;
     }
-- 
2.43.0


From 334b7194fa0c7f7fc01064e911bd0bd033346064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 03/28] fix: load the last record of a zone file without a
 final newline

---
 src/zone-file-parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 2af865a..f910da9 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -384,6 +384,10 @@ int Driver::ParseZoneFileAndExtendGraphs(string file, string nameserver, string
 
     // get the zone file input as a string.
     string str(ReadFromFile(file.c_str()));
+    // Records are completed at a newline token, so the last line also needs one.
+    if (!str.empty() && str.back() != '\n') {
+        str += '\n';
+    }
     char const *first = str.c_str();
     char const *last = &first[str.size()];
 
-- 
2.43.0


From ca1fbbd21dcbc85c57624bce13dec4b0370311aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 04/28] fix: expand @ in the target of NS, CNAME, DNAME and MX
 records

---
 src/zone-file-parser.cpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index f910da9..ed63ce4 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -200,20 +200,12 @@ struct Parser {
                 }
                 // compare returns zero when equal
                 if (!type.compare("NS") || !type.compare("CNAME") || !type.compare("DNAME") || !type.compare("MX")) {
-                    if (!boost::algorithm::ends_with(rdata, ".")) {
-                        // if (relativeDomainSuffix.length() > 0) {
-                        //	if (rdata.compare("@") == 0) {
-                        //		rdata = relativeDomainSuffix;
-                        //	}
-                        //	else {
-                        //		rdata = rdata + "." + relativeDomainSuffix;
-                        //	}
-                        //}
-                        // else {
-                        //	cout << "Encountered @ symbol but relative domain is empty for rdata";
-                        //	currentRecord.clear();
-                        //	return false;
-                        //}
+                    // "@" as the target stands for the current origin
+                    if (boost::algorithm::ends_with(rdata, "@") &&
+                        (rdata.size() == 1 || (type == "MX" && rdata[rdata.size() - 2] == ' '))) {
+                        rdata.pop_back();
+                        rdata += relative_domain_suffix;
+                    } else if (!boost::algorithm::ends_with(rdata, ".")) {
                         rdata = rdata + "." + relative_domain_suffix;
                     }
                 }
-- 
2.43.0


From 3d296673fc3762f16e8141eda489fecc089fa233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 05/28] fix: complete names relative to the root origin and
 relative $ORIGIN arguments

---
 src/zone-file-parser.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index ed63ce4..013749e 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -97,7 +97,7 @@ struct Parser {
             if (paren_count == 0 && current_record.size() > 0) {
                 // Control entry $ORIGIN - Sets the origin for relative domain names
                 if (current_record[0].compare("$ORIGIN") == 0) {
-                    relative_domain_suffix = current_record[1];
+                    relative_domain_suffix = CompleteName(current_record[1], relative_domain_suffix);
                     boost::to_lower(relative_domain_suffix);
                     current_record.clear();
                     return true;
@@ -195,7 +195,7 @@ struct Parser {
                     }
                 }
                 if (!boost::algorithm::ends_with(name, ".")) {
-                    name = name + "." + relative_domain_suffix;
+                    name = CompleteName(name, relative_domain_suffix);
                     default_values.set_name(name);
                 }
                 // compare returns zero when equal
@@ -206,7 +206,7 @@ struct Parser {
                         rdata.pop_back();
                         rdata += relative_domain_suffix;
                     } else if (!boost::algorithm::ends_with(rdata, ".")) {
-                        rdata = rdata + "." + relative_domain_suffix;
+                        rdata = CompleteName(rdata, relative_domain_suffix);
                     }
                 }
                 boost::to_lower(rdata);
@@ -322,6 +322,16 @@ struct Parser {
         return true;
     }
 
+    // The fully qualified form of a name, which is relative to the given origin when it has no trailing dot.
+    string CompleteName(const string &name, const string &origin) const
+    {
+        if (boost::algorithm::ends_with(name, ".")) {
+            return name;
+        }
+        // The root origin already is the final dot.
+        return name + "." + (origin == "." ? "" : origin);
+    }
+
     int GetTypeIndex(vector<string> &current_record) const
     {
         std::vector<string> types{"A",    "MX",  "NS",    "CNAME", "SOA",  "PTR", "TXT",
-- 
2.43.0


From 4a061d7f5834273582a26b4f5c41321805521ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 06/28] fix: carry over the owner name of skipped records

---
 src/zone-file-parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 013749e..3a0fa06 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -131,6 +131,11 @@ struct Parser {
                     }
                 }
 
+                // The owner carries over to following records without one, even if this record is skipped.
+                if (current_record[0].size() > 0) {
+                    default_values.set_name(CompleteName(current_record[0], relative_domain_suffix));
+                }
+
                 // Search for the index where the RR type is found
                 int typeIndex = GetTypeIndex(current_record);
                 if (typeIndex == -1) {
@@ -161,7 +166,6 @@ struct Parser {
                         if (i == 0) {
                             if (field.size() > 0) {
                                 name = field;
-                                default_values.set_name(field);
                             }
                         } else if (boost::iequals(field, "CH")) {
                             Logger->warn(fmt::format(
-- 
2.43.0


From a69e14bccfc68c0404d0a4e29f1484e3d7a0570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 07/28] fix: default TTL is $TTL, else the last stated one

---
 src/zone-file-parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 3a0fa06..71b19c4 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -14,6 +14,7 @@ namespace lex = boost::spirit::lex;
 struct MiniContext {
     string file_name = "";
     bool found_SOA = false;
+    bool found_TTL = false;
     bool lint = false;
     int rrs_parsed = 0;
     std::unordered_map<string, long> type_to_count;
@@ -112,6 +113,7 @@ struct Parser {
                 // Control entry $TTL - The TTL for records without explicit TTL value
                 if (current_record[0].compare("$TTL") == 0) {
                     default_values.set_ttl(std::stoi(current_record[1]));
+                    mc.found_TTL = true;
                     current_record.clear();
                     return true;
                 }
@@ -176,7 +178,8 @@ struct Parser {
                             class_ = 1;
                         } else if (isInteger(field)) {
                             ttl = std::stoi(field);
-                            if (default_values.get_ttl() == 0)
+                            // Without a $TTL the last stated TTL is the default.
+                            if (!mc.found_TTL)
                                 default_values.set_ttl(ttl);
                         } else {
                             Logger->warn(fmt::format(
-- 
2.43.0


From 46bfd4f873dd0b50f66ea248626b6c176f1036d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 08/28] fix: do not abort or read out of bounds on malformed
 $TTL, $ORIGIN and TTL values

---
 src/zone-file-parser.cpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 71b19c4..94f12ce 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -96,6 +96,14 @@ struct Parser {
         case ID_EOL:
             ++l;
             if (paren_count == 0 && current_record.size() > 0) {
+                if (current_record.size() == 1 &&
+                    (current_record[0].compare("$ORIGIN") == 0 || current_record[0].compare("$TTL") == 0)) {
+                    Logger->warn(fmt::format(
+                        "zone-file-parser.cpp (Parser()) - Ignoring {} without a value at line - {} in file - {}",
+                        current_record[0], l, mc.file_name));
+                    current_record.clear();
+                    return true;
+                }
                 // Control entry $ORIGIN - Sets the origin for relative domain names
                 if (current_record[0].compare("$ORIGIN") == 0) {
                     relative_domain_suffix = CompleteName(current_record[1], relative_domain_suffix);
@@ -112,8 +120,14 @@ struct Parser {
                 }
                 // Control entry $TTL - The TTL for records without explicit TTL value
                 if (current_record[0].compare("$TTL") == 0) {
-                    default_values.set_ttl(std::stoi(current_record[1]));
-                    mc.found_TTL = true;
+                    if (auto ttl = ParseTTL(current_record[1])) {
+                        default_values.set_ttl(*ttl);
+                        mc.found_TTL = true;
+                    } else {
+                        Logger->warn(fmt::format(
+                            "zone-file-parser.cpp (Parser()) - Ignoring invalid $TTL at line - {} in file - {}", l,
+                            mc.file_name));
+                    }
                     current_record.clear();
                     return true;
                 }
@@ -176,8 +190,8 @@ struct Parser {
                             class_ = 3;
                         } else if (boost::iequals(field, "IN")) {
                             class_ = 1;
-                        } else if (isInteger(field)) {
-                            ttl = std::stoi(field);
+                        } else if (isInteger(field) && ParseTTL(field)) {
+                            ttl = *ParseTTL(field);
                             // Without a $TTL the last stated TTL is the default.
                             if (!mc.found_TTL)
                                 default_values.set_ttl(ttl);
@@ -358,6 +372,16 @@ struct Parser {
         return index;
     }
 
+    // The TTL value a field starts with, or none if it does not start with a number or is out of range.
+    boost::optional<uint32_t> ParseTTL(const string &field) const
+    {
+        try {
+            return static_cast<uint32_t>(std::stoi(field));
+        } catch (const std::logic_error &) {
+            return {};
+        }
+    }
+
     inline bool isInteger(const std::string &s) const
     {
         if (s.empty() || ((!isdigit(s[0])) && (s[0] != '-') && (s[0] != '+')))
-- 
2.43.0


From 07a9cf7b3f5ddf30cd15815d81bd435cbd786c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 09/28] fix: recognise a SOA record whose owner is omitted

---
 src/zone-file-parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 94f12ce..f31d2b4 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -209,7 +209,8 @@ struct Parser {
                 rdata = rdata.substr(0, rdata.size() - 1);
                 if (name.length() == 0) {
                     name = LabelUtils::LabelsToString(default_values.get_name());
-                } else if (type == "SOA") {
+                }
+                if (type == "SOA") {
                     mc.found_SOA = true;
                     if (relative_domain_suffix.size() == 0) {
                         relative_domain_suffix = name;
-- 
2.43.0


From 503183e50009af57a68d6c112355d5ad908853f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 10/28] fix: load zone files of the root zone

---
 src/zone-graph.cpp | 6 ++++--
 src/zone-graph.h   | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/zone-graph.cpp b/src/zone-graph.cpp
index 9936d81..d1144d5 100644
--- a/src/zone-graph.cpp
+++ b/src/zone-graph.cpp
@@ -127,6 +127,7 @@ tuple<zone::RRAddCode, boost::optional<zone::Graph::VertexDescriptor>> zone::Gra
     (*this)[node].rrs.push_back(record);
     if (record.get_type() == RRType::SOA) {
         origin_ = record.get_name();
+        found_soa_ = true;
     }
     return {RRAddCode::SUCCESS, node};
 }
@@ -138,9 +139,10 @@ void zone::Graph::CheckGlueRecordsPresence(const Nameserver &ns)
 
 bool zone::Graph::CheckZoneMembership(const ResourceRecord &record, const string &filename)
 {
-    if (record.get_type() == RRType::SOA && origin_.size() == 0) {
+    // The origin of the root zone has no labels, so it does not tell whether the SOA record was seen.
+    if (record.get_type() == RRType::SOA && !found_soa_) {
         return true;
-    } else if (origin_.size() == 0) {
+    } else if (!found_soa_) {
         Logger->critical(fmt::format(
             "zone-graph.cpp (CheckZoneMembership) - Non SOA record is written before a SOA record in the zone file {}",
             filename));
diff --git a/src/zone-graph.h b/src/zone-graph.h
index 289f0b1..7d88d7c 100644
--- a/src/zone-graph.h
+++ b/src/zone-graph.h
@@ -47,6 +47,7 @@ class Graph : public boost::adjacency_list<boost::vecS, boost::vecS, boost::dire
 
     int id_;
     vector<NodeLabel> origin_;
+    bool found_soa_ = false;
     zone::Graph::VertexDescriptor root_ = 0;
     std::unordered_map<zone::Graph::VertexDescriptor, LabelToVertex> vertex_to_child_map_;
 
-- 
2.43.0


From fa837873cf3f03a75e9780920370d9fb57fe9e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 11/28] fix: structural check with the root zone as a parent

---
 src/label-graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 1a1e4de..de3323f 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -203,7 +203,7 @@ void label::Graph::CheckStructuralDelegationConsistency(
                     // Parents issue: For a domain - dns.foo.com.ar. the records can come from multiple sources like
                     // from com.ar. (glue record), foo.com.ar. (delegation) and dns.foo.com.ar (SOA) In such cases we
                     // get multiple parents which should not be accounted for.
-                    if (longest_parent.size()) {
+                    if (parents.size()) {
                         if (longest_parent == z.get_origin()) {
                             parents.push_back(std::make_tuple(
                                 std::get<0>(zoneId_vertexId_pair), z.LookUpGlueRecords(ns_records),
-- 
2.43.0


From 680764dc3395368b26901c7853698e42e71f6489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 12/28] fix: do not compare a CNAME with the answer after the
 rewrite for response consistency

---
 src/properties.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/properties.cpp b/src/properties.cpp
index 01a8f5e..fccc9bb 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -153,6 +153,10 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
                     if (graph[vd].query.rrTypes[RRType::CNAME]) {
                         cname_end_nodes.push_back(vd);
                     }
+                    if (std::get<0>(answer.get()[0]) == ReturnTag::REWRITE) {
+                        // The query ends here only for CNAME. The other types are answered at a later end node.
+                        continue;
+                    }
                     if (!response) {
                         response = answer;
                     } else {
-- 
2.43.0


From 2e406a74e4c1859f2abb5a8e229ce5324e20bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 13/28] fix: report zero TTL only for records of the requested
 types

---
 src/properties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index fccc9bb..cb5bef2 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -222,7 +222,7 @@ void interpretation::Graph::Properties::ZeroTTL(
                 } else {
                     auto &rrs = std::get<2>(answer.get()[0]);
                     for (auto &r : rrs) {
-                        if (r.get_ttl() == 0) {
+                        if (typesReq[r.get_type()] && r.get_ttl() == 0) {
                             json tmp;
                             tmp["Property"] = "Zero TTL";
                             tmp["Query"] = graph[end_nodes[0]].query.ToString();
-- 
2.43.0


From dfffb1b0fd73650cbb1ce1fe19905a7dbcae9c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 14/28] fix: response value ignores CNAME end nodes unless
 CNAME is requested

---
 src/properties.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/properties.cpp b/src/properties.cpp
index cb5bef2..d604ba1 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -93,6 +93,10 @@ void interpretation::Graph::Properties::CheckResponseValue(
     json tmp;
     for (auto vd : end_nodes) {
         if ((graph[vd].query.rrTypes & types_requested).count() > 0) {
+            if (std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::REWRITE && !types_requested[RRType::CNAME]) {
+                // The query ends here only for CNAME, which this property did not ask for.
+                continue;
+            }
             if (std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::ANS ||
                 std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::REWRITE) {
                 set<string> rdatas;
-- 
2.43.0


From 5e70435a4a5e2976008fde6ef7c3c39d3b03a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 15/28] fix: response value ignores the glue of NS records

---
 src/properties.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index d604ba1..f2f76c4 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -100,8 +100,16 @@ void interpretation::Graph::Properties::CheckResponseValue(
             if (std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::ANS ||
                 std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::REWRITE) {
                 set<string> rdatas;
-                for (auto rr : std::get<2>(graph[vd].answer.get()[0])) {
-                    if (types_requested[rr.get_type()] == 1) {
+                auto &records = std::get<2>(graph[vd].answer.get()[0]);
+                for (auto rr : records) {
+                    // The addresses of other servers that come along with NS records are not part of the response.
+                    bool glue = (rr.get_type() == RRType::A || rr.get_type() == RRType::AAAA) &&
+                                rr.get_name() != graph[vd].query.name &&
+                                std::any_of(records.begin(), records.end(), [&rr](const ResourceRecord &ns) {
+                                    return ns.get_type() == RRType::NS &&
+                                           LabelUtils::StringToLabels(ns.get_rdata()) == rr.get_name();
+                                });
+                    if (types_requested[rr.get_type()] == 1 && !glue) {
                         rdatas.insert(rr.get_rdata());
                     }
                 }
-- 
2.43.0


From 1737fe856d7963edf9f73a080be64dbf1b5168e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 16/28] fix: delegation consistency compares only the addresses
 of name servers as glue

---
 src/properties.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index f2f76c4..856f5ba 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -22,13 +22,22 @@ void interpretation::Graph::Properties::PrettyPrintResponseValue(
 tuple<vector<ResourceRecord>, vector<ResourceRecord>> interpretation::Graph::Properties::GetNSGlueRecords(
     const vector<ResourceRecord> &records)
 {
-    // From the input set of records, return the NS records and IP records
+    // From the input set of records, return the NS records and the IP records of their name servers. The other IP
+    // records answer the query itself.
     vector<ResourceRecord> nsRecords;
     vector<ResourceRecord> glueRecords;
     for (auto r : records) {
         if (r.get_type() == RRType::NS)
             nsRecords.push_back(r);
-        if (r.get_type() == RRType::A || r.get_type() == RRType::AAAA)
+    }
+    for (auto r : records) {
+        if ((r.get_type() == RRType::A || r.get_type() == RRType::AAAA) &&
+            std::any_of(
+                nsRecords.begin(), nsRecords.end(),
+                [&r](const ResourceRecord &ns) {
+                    return LabelUtils::StringToLabels(ns.get_rdata()) == r.get_name();
+                }) &&
+            std::find(glueRecords.begin(), glueRecords.end(), r) == glueRecords.end())
             glueRecords.push_back(r);
     }
     return std::make_tuple(nsRecords, glueRecords);
-- 
2.43.0


From 6a656667b9614503877df30ee90bcf1ed8a7eb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 17/28] fix: compare expected response values ignoring letter
 case

---
 src/driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index e3ab206..2907961 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -253,6 +253,8 @@ void Driver::SetJob(const json &user_job)
         } else if (name == "ResponseValue") {
             std::set<string> values;
             for (string v : property["Value"]) {
+                // The data of loaded records is in lower case.
+                boost::to_lower(v);
                 values.insert(v);
             }
             if (values.size()) {
-- 
2.43.0


From 88f36f6b40e86961e8e228ae4fc7bcaee6e185aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 18/28] fix: deterministic order of canonical names in the
 aliases entry

---
 src/driver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index 2907961..b2d3b69 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -54,7 +54,8 @@ void Driver::GenerateECsAndCheckProperties()
     std::thread json_consumer = thread([this, &done_consumers]() {
         json item;
         bool itemsLeft;
-        std::unordered_map<string, set<string>> aliases;
+        // ordered, so that the report does not depend on the order of arrival
+        std::map<string, set<string>> aliases;
         do {
             itemsLeft = done_consumers.load(std::memory_order_acquire) <= kECConsumerCount;
             while (current_job_.json_queue.try_dequeue(item)) {
-- 
2.43.0


From 6a05c7e2e6459edff939639d38c8389035281c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 19/28] fix: walk the label graph from one encloser at a time

---
 src/label-graph.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index de3323f..a497e7f 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -583,22 +583,16 @@ void label::Graph::GenerateECs(Job &current_job, const Context &context)
                 vector<NodeLabel> parent_domain_name = labels;
                 if (parent_domain_name.size())
                     parent_domain_name.pop_back();
-                vector<std::thread> ECproducers;
                 if (current_job.ec_queue.size_approx() != 0) {
                     Logger->warn(fmt::format(
                         "label-graph.cpp (GenerateECs) - The global EC queue is non-empty for {}",
                         current_job.user_input_domain));
                 }
-                // EC producer threads
+                // One after the other, as the walk marks the nodes of the label graph on its path.
                 for (auto &encloser : closest_enclosers) {
-                    ECproducers.push_back(thread([&]() {
-                        SubDomainECGeneration(
-                            encloser.first, parent_domain_name, false, current_job, context,
-                            current_job.check_structural_delegations);
-                    }));
-                }
-                for (auto &t : ECproducers) {
-                    t.join();
+                    SubDomainECGeneration(
+                        encloser.first, parent_domain_name, false, current_job, context,
+                        current_job.check_structural_delegations);
                 }
             } else {
                 NodeEC(labels, current_job);
-- 
2.43.0


From 79d8463e00f0b29e07a370064f5f66699cc54e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 20/28] fix: write the report and lint file for zone data that
 is not valid UTF-8

---
 src/driver.cpp | 3 ++-
 src/utils.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index b2d3b69..44c14f1 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -461,7 +461,8 @@ void Driver::WriteViolationsToFile(string output_file) const
     for (const json &j : property_violations_) {
         if (c != 0)
             ofs << ",\n";
-        ofs << j.dump(4);
+        // Zone data may hold bytes that are not valid UTF-8.
+        ofs << j.dump(4, ' ', false, json::error_handler_t::replace);
         c++;
     }
     ofs << "\n]";
diff --git a/src/utils.cpp b/src/utils.cpp
index dff5a85..018e3f3 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -205,7 +205,8 @@ void LintUtils::WriteIssueToFile(json &log_line, bool lint)
         std::ofstream out("lint.json", ios::app);
         if (i > 3)
             out << ",\n";
-        out << log_line.dump(4);
+        // Zone data may hold bytes that are not valid UTF-8.
+        out << log_line.dump(4, ' ', false, json::error_handler_t::replace);
         out.close();
     }
 }
-- 
2.43.0


From 289ba54e430b12e53e7816714684f31b2e5cf9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 21/28] fix: accept names of exactly 255 octets

---
 src/label-graph.cpp | 4 ++--
 src/node-label.h    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index a497e7f..5b7dd9b 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -465,7 +465,7 @@ void label::Graph::SubDomainECGeneration(
     for (NodeLabel &l : parent_domain_name) {
         len += l.get().length() + 1;
     }
-    if (len >= kMaxDomainLength || (len == (*this)[start].len && skipLabel)) {
+    if (len > kMaxDomainLength || (len == (*this)[start].len && skipLabel)) {
         //return if length exceedes or DNAME loop detected 
         //mostly likely turns out as cyclic zone dependecy so no need to report here
         return;
@@ -487,7 +487,7 @@ void label::Graph::SubDomainECGeneration(
     for (NodeLabel &l : name) {
         nodeLen += l.get().length() + 1;
     }
-    if (nodeLen >= kMaxDomainLength) {
+    if (nodeLen > kMaxDomainLength) {
         return;
     }
     (*this)[start].len = static_cast<int16_t>(nodeLen);
diff --git a/src/node-label.h b/src/node-label.h
index 3b4577e..79f72a7 100644
--- a/src/node-label.h
+++ b/src/node-label.h
@@ -28,7 +28,7 @@ using json = nlohmann::json;
 
 #define kHashMapThreshold 500
 #define kMaxLabelLength 63
-#define kMaxDomainLength 253
+#define kMaxDomainLength 254
 
 struct Empty {
 };
-- 
2.43.0


From 19081fe3eaab91ec59667c2bc54660cd0d90a370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 22/28] fix: DS records are loaded by the parser but had no
 record type

---
 src/resource-record.h | 2 +-
 src/utils.cpp         | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/resource-record.h b/src/resource-record.h
index 97e424f..7f1092b 100644
--- a/src/resource-record.h
+++ b/src/resource-record.h
@@ -5,7 +5,7 @@
 
 enum RRClass { CLASS_IN = 1, CLASS_CH = 3 };
 
-enum RRType { A, NS, CNAME, DNAME, SOA, PTR, MX, TXT, AAAA, SRV, RRSIG, NSEC, SPF, N };
+enum RRType { A, NS, CNAME, DNAME, SOA, PTR, MX, TXT, AAAA, SRV, RRSIG, NSEC, SPF, DS, N };
 
 class ResourceRecord
 {
diff --git a/src/utils.cpp b/src/utils.cpp
index 018e3f3..bdbac3a 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -127,12 +127,14 @@ RRType TypeUtils::StringToType(const string &type)
         return NSEC;
     } else if (type == "SPF") {
         return SPF;
+    } else if (type == "DS") {
+        return DS;
     }
     return N;
 }
 
 string type_to_string[] = {"A",   "NS",   "CNAME", "DNAME", "SOA",  "PTR", "MX",
-                           "TXT", "AAAA", "SRV",   "RRSIG", "NSEC", "SPF"};
+                           "TXT", "AAAA", "SRV",   "RRSIG", "NSEC", "SPF", "DS"};
 
 string TypeUtils::TypeToString(RRType type)
 {
-- 
2.43.0


From dd0eff719c9bee84e20414229be29557fd3dbfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 23/28] fix: response returned skips only the end nodes of
 non-existing names

---
 src/properties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 856f5ba..762eaf7 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -57,7 +57,7 @@ void interpretation::Graph::Properties::CheckResponseReturned(
     for (auto vd : end_nodes) {
         // If the EC is for a non-existent node then by default it will not return an answer
         if (graph[vd].query.nonExistent) {
-            return;
+            continue;
         }
         if ((graph[vd].query.rrTypes & types_req).count() > 0 && graph[vd].ns != "") {
             boost::optional<vector<zone::LookUpAnswer>> answer = graph[vd].answer;
-- 
2.43.0


From 18492666b8aca2bf7c7ff4ae382f7093c3ed5b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 24/28] fix: treat top name servers without zone files as
 unknown, not refusing

Whether a referral to such a server was reported as a lame delegation
depended on the order of the top name servers.
---
 src/interpretation-graph.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/interpretation-graph.cpp b/src/interpretation-graph.cpp
index 5ad931b..be2b211 100644
--- a/src/interpretation-graph.cpp
+++ b/src/interpretation-graph.cpp
@@ -461,9 +461,12 @@ void interpretation::Graph::StartFromTopNameservers(
             // QueryResolver"));
             QueryResolver(context.zoneId_to_zone.find(start.get())->second, node.get(), context);
         } else if (node && !start) {
+            // As in NsSubRoutine, a server without any zone file is unknown rather than refusing.
+            bool known = context.nameserver_zoneIds_map.find(ns) != context.nameserver_zoneIds_map.end();
             vector<zone::LookUpAnswer> answer;
-            answer.push_back(
-                std::make_tuple(ReturnTag::REFUSED, (*this)[node.get()].query.rrTypes, vector<ResourceRecord>{}));
+            answer.push_back(std::make_tuple(
+                known ? ReturnTag::REFUSED : ReturnTag::NSNOTFOUND, (*this)[node.get()].query.rrTypes,
+                vector<ResourceRecord>{}));
             (*this)[node.get()].answer = answer;
             // Logger->debug(fmt::format("interpretation-graph (StartFromTopNameservers) No relevant zone found and
             // answer is updated to REFUSED"));
-- 
2.43.0


From c98c81d625187045351b484bd56c8b075380c53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:39 +0000
Subject: [PATCH 25/28] fix: a zone file whose SOA record is rejected is not
 loaded as a root zone

---
 src/zone-file-parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index f31d2b4..4df8efb 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -211,7 +211,6 @@ struct Parser {
                     name = LabelUtils::LabelsToString(default_values.get_name());
                 }
                 if (type == "SOA") {
-                    mc.found_SOA = true;
                     if (relative_domain_suffix.size() == 0) {
                         relative_domain_suffix = name;
                     }
@@ -272,6 +271,9 @@ struct Parser {
                         if (z.CheckZoneMembership(RR, mc.file_name)) {
                             auto [code, vertexid] = z.AddResourceRecord(RR);
                             if (code == zone::RRAddCode::SUCCESS) {
+                                if (RR.get_type() == RRType::SOA) {
+                                    mc.found_SOA = true;
+                                }
                                 label_graph.AddResourceRecord(RR, z.get_id(), vertexid.get());
                                 mc.type_to_count[type]++;
                                 if (boost::algorithm::starts_with(name, "*.")) {
-- 
2.43.0


From 568a933021da3c3447a19e5ce29d5c22ac8ca986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:53 +0000
Subject: [PATCH 26/28] fix: a run ended by an exception exits with failure
 status

---
 bin/groot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/groot.cpp b/bin/groot.cpp
index 11baf0c..5c1f7ec 100644
--- a/bin/groot.cpp
+++ b/bin/groot.cpp
@@ -173,5 +173,6 @@ int main(int argc, const char **argv)
     } catch (exception &e) {
         cout << "Exception:- " << e.what() << endl;
         spdlog::shutdown();
+        return EXIT_FAILURE;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 830d21e1f838dc3fa25786319a6298497c0f907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:53 +0000
Subject: [PATCH 27/28] fix: a report that cannot be written completely fails
 the run

---
 src/driver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index 44c14f1..fdf6643 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -467,6 +467,10 @@ void Driver::WriteViolationsToFile(string output_file) const
     }
     ofs << "\n]";
     ofs.close();
+    if (!ofs) {
+        Logger->critical(fmt::format("driver.cpp (WriteViolationsToFile) - Could not write to {}", output_file));
+        exit(EXIT_FAILURE);
+    }
     Logger->debug(fmt::format("driver.cpp (WriteViolationsToFile) - Output written to {}", output_file));
 }
 
-- 
2.43.0


From 6eca8fb449e6b37b6ad279aeede6d993e47c2403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:53 +0000
Subject: [PATCH 28/28] fix: jobs that lack a field or have a limit of another
 kind are rejected instead of undefined behaviour

---
 src/driver.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index fdf6643..380f9e9 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -212,20 +212,20 @@ long Driver::SetContext(const json &metadata, string directory, bool lint)
 
 void Driver::SetJob(const json &user_job)
 {
-    string d = string(user_job["Domain"]);
+    string d = string(user_job.at("Domain"));
     boost::to_lower(d);
     current_job_.stats.ec_count = 0;
     current_job_.stats.interpretation_edges.clear();
     current_job_.stats.interpretation_vertices.clear();
     current_job_.user_input_domain = d;
-    current_job_.check_subdomains = user_job["SubDomain"];
+    current_job_.check_subdomains = user_job.at("SubDomain");
     current_job_.check_structural_delegations = false;
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
     current_job_.types_req = {};
 
-    for (auto &property : user_job["Properties"]) {
-        string name = property["PropertyName"];
+    for (auto &property : user_job.at("Properties")) {
+        string name = property.at("PropertyName");
         std::bitset<RRType::N> propertyTypes;
         if (property.find("Types") != property.end()) {
             for (auto typ : property["Types"]) {
@@ -253,7 +253,7 @@ void Driver::SetJob(const json &user_job)
             current_job_.node_functions.push_back(la);
         } else if (name == "ResponseValue") {
             std::set<string> values;
-            for (string v : property["Value"]) {
+            for (string v : property.at("Value")) {
                 // The data of loaded records is in lower case.
                 boost::to_lower(v);
                 values.insert(v);
@@ -273,14 +273,14 @@ void Driver::SetJob(const json &user_job)
                     string(user_job["Domain"])));
             }
         } else if (name == "Hops") {
-            auto l = [num_hops = property["Value"]](
+            auto l = [num_hops = property.at("Value").get<int>()](
                          const interpretation::Graph &graph, const interpretation::Graph::Path &p,
                          moodycamel::ConcurrentQueue<json> &json_queue) {
                 interpretation::Graph::Properties::NumberOfHops(graph, p, json_queue, num_hops);
             };
             current_job_.path_functions.push_back(l);
         } else if (name == "Rewrites") {
-            auto l = [num_rewrites = property["Value"]](
+            auto l = [num_rewrites = property.at("Value").get<int>()](
                          const interpretation::Graph &graph, const interpretation::Graph::Path &p,
                          moodycamel::ConcurrentQueue<json> &json_queue) {
                 interpretation::Graph::Properties::NumberOfRewrites(graph, p, json_queue, num_rewrites);
@@ -306,7 +306,7 @@ void Driver::SetJob(const json &user_job)
             current_job_.path_functions.push_back(l);
         } else if (name == "QueryRewrite") {
             vector<vector<NodeLabel>> allowed_domains;
-            for (string v : property["Value"]) {
+            for (string v : property.at("Value")) {
                 boost::to_lower(v);
                 allowed_domains.push_back(LabelUtils::StringToLabels(v));
             }
@@ -324,7 +324,7 @@ void Driver::SetJob(const json &user_job)
             }
         } else if (name == "NameserverContact") {
             vector<vector<NodeLabel>> allowed_domains;
-            for (string v : property["Value"]) {
+            for (string v : property.at("Value")) {
                 boost::to_lower(v);
                 allowed_domains.push_back(LabelUtils::StringToLabels(v));
             }
@@ -345,7 +345,7 @@ void Driver::SetJob(const json &user_job)
             current_job_.path_functions.push_back(interpretation::Graph::Properties::RewriteBlackholing);
         } else if (name == "AllAliases") {
             vector<vector<NodeLabel>> canonical_names;
-            for (string v : property["Value"]) {
+            for (string v : property.at("Value")) {
                 boost::to_lower(v);
                 canonical_names.push_back(LabelUtils::StringToLabels(v));
             }
-- 
2.43.0

