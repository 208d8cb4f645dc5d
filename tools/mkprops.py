#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": None}})
S = "src/"
p("C01", "Query classes cover every query of a job's domain",
  "For a job over a domain with subdomains, every concrete query name at or below the domain (existing name, empty non-terminal, name matched by a wildcard, non-existent name, or name below a DNAME owner that is carried over to the DNAME target's subtree) behaves exactly like one of the queries the tool examines, so no misbehaviour of a concrete query goes unreported. "
  "With subdomains switched off exactly the named domain is examined; a domain that does not exist in the zone data is examined as one non-existing name below its longest existing ancestor. "
  "Nothing outside the job's domain is examined.",
  ["inputs", "configurations"], "all zone-file collections, job domains and subdomain flags; all concrete query names below the domain",
  "The tests count the classes of a single data set; coverage is a statement about infinitely many query names for every zone collection (DNAME edges, wildcards, multiple ancestors).",
  [S+"label-graph.cpp", S+"label-graph.h", S+"equivalence-class.cpp"],
  [("walk over the label graph emitting one query class per node and per node's non-existing children", S+"label-graph.cpp: SubDomainECGeneration, NodeEC, WildcardChildEC"),
   ("search of the closest existing ancestors through DNAME edges", S+"label-graph.cpp: SearchNode, GenerateECs")],
  ["report entries (Query field) of a job whose property every query violates (Hops 0)", "report entries compared with per-name resolution of concrete names"])
p("C02", "Lookup in one zone follows the DNS algorithm",
  "Looking up a query in a zone returns what RFC 1034/4592/6672 prescribe for that zone's records: a referral at or below a zone cut (before anything below it is seen), else DNAME rewriting strictly below a DNAME owner, else the exact node's records of the requested types, else the wildcard of the closest encloser, else non-existence; CNAME rewrites any query not asking only for CNAME. "
  "The answer lists exactly the records of the requested types, names the requested types that are missing, and a referral carries exactly the cut's NS records, each followed by the A/AAAA records the zone holds for it. "
  "The answer does not depend on the order of the records in the zone file (other than the order of records in the answer).",
  ["inputs"], "all zones, all query names (existing, non-existing, below cuts, wildcards, DNAMEs) and all sets of query types",
  "A handful of lookups on one zone of eight records are tested; precedence between cut, DNAME, wildcard, empty non-terminal and CNAME must hold for every zone.",
  [S+"zone-graph.cpp", S+"zone-graph.h"],
  [("closest encloser search stopping at cuts and DNAMEs", S+"zone-graph.cpp: GetClosestEncloser"),
   ("answer construction", S+"zone-graph.cpp: QueryLookUpAtZone, WildcardMatch, AddGlueRecords")],
  ["zone lookup result (tag, types, records)"])
p("C03", "Cross-server resolution explores exactly the possible executions",
  "For a query, the executions considered are exactly those of a resolver that starts at every top name server, uses at each server the zone with the longest matching origin, follows each referral to every listed server, follows CNAME/DNAME at the same server when it has a zone for the new name and from the top otherwise, and resolves the address of a referred server first when no glue is given and it is not a top server. "
  "A server without a zone for the query refuses it, an unknown server is reported as not found, and a rewritten name exceeding the DNS length limit ends the execution. "
  "Every (server, query) pair is resolved the same way wherever it is met, and no execution is dropped or invented.",
  ["inputs", "configurations"], "all collections of zone files, servers, top servers and queries",
  "One resolution tree for one query is compared in the tests; the relation must hold for every topology of delegations, glue and rewrites.",
  [S+"interpretation-graph.cpp", S+"interpretation-properties.h"],
  [("resolution step and successor generation", S+"interpretation-graph.cpp: QueryResolver, NsSubRoutine, CheckCnameDnameAtSameNameserver, StartFromTopNameservers, SideQuery"),
   ("zone selection at a server", S+"interpretation-graph.cpp: GetRelevantZone"),
   ("memoisation on (server, query)", S+"interpretation-graph.cpp: InsertNode")],
  ["resolution graph of a query: nodes (server, query, answers), edges, side queries"])
p("C04", "Hops and Rewrites report exactly the executions over the limit",
  "A Hops (Rewrites) entry with actual count n for a query is reported if and only if some complete execution of that query contacts n servers (counting consecutive contacts of one server once) respectively is rewritten n times by CNAME or DNAME, and n exceeds the configured limit. "
  "The entry carries the query, the actual count and the configured limit. "
  "Raising the limit never adds an entry.",
  ["inputs", "configurations"], "all zone collections, jobs and limits",
  "Tests check totals for one data set and limits 1 and 2; off-by-one, wrong counting across zones or dropped executions need other topologies.",
  [S+"properties.cpp", S+"driver.cpp", S+"interpretation-graph.cpp"],
  [("counting along a path", S+"properties.cpp: NumberOfHops, NumberOfRewrites"), ("path enumeration", S+"interpretation-graph.cpp: EnumeratePathsAndReturnEndNodes")],
  ["report entries with Property Hops / Rewrites"])
p("C05", "QueryRewrite and NameserverContact flag exactly the escapes",
  "A Query Rewrite entry is reported if and only if some execution rewrites a query (CNAME or DNAME) to a name that is not at or below any of the allowed domains, and a Name Server Contact entry if and only if some execution sends the query to a server whose name is not at or below any allowed domain. "
  "The test is by whole labels and ignores letter case. "
  "Each entry names the query before the rewrite, the rewrite target and server (respectively the query and the external server) and the allowed domains.",
  ["inputs", "configurations"], "all zone collections, all lists of allowed domains",
  "Tests use a single allowed-domain list; label-wise containment and every position on every execution must be right.",
  [S+"properties.cpp", S+"utils.cpp", S+"driver.cpp"],
  [("containment test", S+"utils.cpp: SubDomainCheck"), ("path scan", S+"properties.cpp: QueryRewrite, NameServerContact")],
  ["report entries with Property Query Rewrite / Name Server Contact"])
p("C06", "Rewrite blackholing is reported exactly when a rewrite ends in NXDOMAIN",
  "A Rewrite Blackholing entry is reported if and only if some execution rewrites a query (CNAME or DNAME, at any step) and ends at a server answering that the final name does not exist. "
  "The entry names the first rewritten query of that execution, the final name and the server. "
  "A name that exists only as an empty non-terminal or without the requested type, or that ends refused, at an unknown server or over-long, is not a blackhole.",
  ["inputs"], "all zone collections and jobs",
  "Tests contain few blackholes; the relation quantifies over all rewrite chains and end states.",
  [S+"properties.cpp", S+"interpretation-graph.cpp", S+"zone-graph.cpp"],
  [("path scan", S+"properties.cpp: RewriteBlackholing")], ["report entries with Property Rewrite Blackholing"])
p("C07", "AllAliases lists exactly the aliases of each canonical name",
  "For each requested canonical name, the report lists exactly the queries of the job's domain whose execution rewrites them (directly or through further rewrites) to that name, including intermediate rewritten names, and nothing else. "
  "Matching ignores letter case, and a canonical name reached without rewriting lists no alias. "
  "All aliases of a job appear in one entry that lists every canonical name once with the set of its aliases.",
  ["inputs", "configurations"], "all zone collections, all lists of canonical names",
  "Tests ask for a single canonical name on one data set.",
  [S+"properties.cpp", S+"driver.cpp"],
  [("path scan", S+"properties.cpp: AllAliases"), ("grouping by canonical name", S+"driver.cpp: GenerateECsAndCheckProperties")],
  ["report entry with Property All Aliases"])
p("C08", "Delegation consistency compares parent and child NS and glue exactly",
  "A Delegation Consistency entry of kind NS (Glue) for a query, parent server and child server is reported if and only if some execution is referred by the parent to the child, the child answers that same name with its own NS records, both are about the same domain, and their NS sets differ (respectively the glue A/AAAA records they hold for the listed servers differ). "
  "Glue that only the parent needs because the server name lies outside the child domain is not compared, TTLs are ignored, and identical data is never reported.",
  ["inputs"], "all zone collections: every subset relation between parent and child NS and glue sets",
  "Tests contain two inconsistent delegations; all relations between the four record sets need generated inputs.",
  [S+"properties.cpp", S+"utils.cpp", S+"zone-graph.cpp"],
  [("comparison", S+"properties.cpp: CheckDelegationConsistency, GetNSGlueRecords"), ("set difference ignoring TTL", S+"utils.cpp: CompareRRs")],
  ["report entries with Property Delegation Consistency"])
p("C09", "Lame delegation is reported exactly for refusing delegated servers",
  "A Lame Delegation entry for a query, parent server and child server is reported if and only if some execution is referred by the parent to the child for that very name and the child, a server known from the zone data, has no zone for it and refuses. "
  "Servers about which nothing is known, and refusals met after a rewrite to another name, are not reported. "
  "Every such referral on every execution is reported.",
  ["inputs"], "all zone collections and server assignments",
  "Tests contain few lame delegations in one data set.",
  [S+"properties.cpp", S+"interpretation-graph.cpp"],
  [("path scan", S+"properties.cpp: CheckLameDelegation"), ("refusal", S+"interpretation-graph.cpp: NsSubRoutine")],
  ["report entries with Property Lame Delegation"])
p("C10", "Response consistency is reported exactly when executions disagree",
  "A Response Consistency entry is reported for an examined query that asks at least one of the property's types if and only if two of its executions that end at answering servers return different record sets for the types the job requests (compared by owner, type and data, ignoring TTL and order), where a CNAME at which an execution ends is compared with the other executions only when CNAME is among the requested types. "
  "Executions that end refused or at an unknown server are ignored, and a query with a single answering execution is never reported. "
  "Whether a missing name differs from an existing name without records is left open.",
  ["inputs", "configurations"], "all zone collections, type lists and combinations with other properties",
  "Tests check one type list on one data set.",
  [S+"properties.cpp", S+"interpretation-graph.cpp", S+"utils.cpp"],
  [("pairwise comparison of end nodes", S+"properties.cpp: CheckSameResponseReturned"), ("end nodes", S+"interpretation-graph.cpp: EnumeratePathsAndReturnEndNodes")],
  ["report entries with Property Response Consistency"])
p("C11", "Response returned reports exactly the missing types",
  "A ResponseReturned entry for a final query, server and types T is reported if and only if some execution of an examined query ends at that server for that final query, the server answers (neither refuses nor is unknown), and T is the non-empty set of the property's types for which that answer holds no record. "
  "Examined queries for names that are known not to exist are not reported as long as they are not rewritten, a type that is answered is never listed as missing, and types requested only by other properties of the job are not listed. "
  "When CNAME is among the types a CNAME answer counts as the response for CNAME.",
  ["inputs", "configurations"], "all zone collections, type lists and combinations with other properties",
  "Tests check one type list on one data set.",
  [S+"properties.cpp", S+"zone-graph.cpp", S+"interpretation-graph.cpp"],
  [("end-node scan", S+"properties.cpp: CheckResponseReturned")],
  ["report entries with Property ResponseReturned"])
p("C12", "Response value reports exactly the executions with other answers",
  "A Response Value entry is reported for a query if and only if some execution ends with an answer of the property's types whose set of record data differs from the expected set (as DNS data, ignoring letter case), a non-existing or over-long name counting as the empty set; it lists each such final query, server and the data found. "
  "Executions ending refused or at an unknown server are ignored. "
  "Matching answers are never listed.",
  ["inputs", "configurations"], "all zone collections, type lists and expected value sets",
  "Tests use one expected value; set comparison over all executions needs generated data.",
  [S+"properties.cpp", S+"driver.cpp"],
  [("comparison", S+"properties.cpp: CheckResponseValue, PrettyPrintResponseValue")],
  ["report entries with Property Response Value"])
p("C13", "Zero TTL reports exactly the returned records with TTL 0",
  "A Zero TTL entry for a server and record is reported if and only if some execution of a query in the job's domain ends at that server with an answer containing that record, the record's type is among the property's types, and its effective TTL is 0. "
  "The effective TTL of a record is its own TTL, else the $TTL default in force, else the last TTL stated before it (0 if there is none). "
  "Records of other types, records with other TTLs and records of referrals are not reported.",
  ["inputs", "configurations"], "all zone collections, TTL assignments ($TTL, explicit, inherited) and type lists",
  "There is no test of TTL inheritance or of this property beyond a fixed data set.",
  [S+"properties.cpp", S+"zone-file-parser.cpp"],
  [("end-node scan", S+"properties.cpp: ZeroTTL"), ("TTL defaults", S+"zone-file-parser.cpp: Parser")],
  ["report entries with Property Zero TTL"])
p("C14", "DNAME length overflow and recursion are reported exactly",
  "A query that some execution rewrites through DNAME to a name beyond the DNS limit of 255 octets is reported as exceeding the length if and only if that happens, names up to the limit being resolved normally. "
  "Infinite DNAME recursion is reported if and only if an execution meets the same rewriting record again with a name that has not become shorter. "
  "Resolution of recursive DNAMEs always terminates, and no examined query exceeds the limit.",
  ["inputs"], "all zone collections including self-referential and mutually recursive DNAMEs and names near the length limit",
  "One overlong substitution is tested; the boundary and the interplay of several DNAMEs are not.",
  [S+"properties.cpp", S+"interpretation-graph.cpp", S+"utils.cpp", S+"label-graph.cpp"],
  [("length check", S+"utils.cpp: LengthCheck"), ("substitution", S+"interpretation-graph.cpp: ProcessDname, CheckCnameDnameAtSameNameserver"), ("reports", S+"properties.cpp: DNAMESubstitutionExceedesLength, InfiniteDName")],
  ["report entries with Property DNAME Substitution exceeds length / Infinite DName Recursion"])
p("C15", "Structural delegation consistency compares all holders of NS records",
  "For every existing name of the job's domain with NS records, the report lists exactly those pairs of zone copies holding data for the name (nearest parent against child apex, parent against parent, child against child), on whatever servers and whether or not reachable, whose NS sets for the name differ or whose relevant glue differs, with the common and exclusive records on each side. "
  "Glue is compared with a child only if a listed server lies inside the child zone, and parent glue for servers outside the child zone is ignored. TTLs are ignored. "
  "Consistent names are not reported, and nothing is reported unless the job asks for it.",
  ["inputs", "configurations"], "all zone collections including several copies of parent and child on different servers",
  "Tests contain no job for this property with several copies of parents and children.",
  [S+"label-graph.cpp", S+"zone-graph.cpp", S+"utils.cpp"],
  [("collection of parents and children", S+"label-graph.cpp: CheckStructuralDelegationConsistency"), ("comparison", S+"label-graph.cpp: CompareParentChildDelegationRecords, ConstructOutputNS")],
  ["report entries with Property Structural Delegation Consistency"])
p("C16", "Cyclic dependencies are reported and analysis always terminates",
  "For every examined query whose resolution can come back to a server and query it has already visited (through referrals, rewrites or the side queries for server addresses) exactly one Cyclic Zone Dependency entry is produced, and none for any other query. "
  "The entry lists a real cycle: consecutive (server, query, answer kind) steps each of which leads to the next, and the last to the first. "
  "Analysis of cyclic inputs terminates (names that grow through rewriting stop at the DNS length limit) and properties of the non-cyclic executions are still reported.",
  ["inputs"], "all zone collections, in particular with CNAME/DNAME loops, glueless mutual delegations and self-delegations",
  "Tests contain a single loop; termination and exactness quantify over all cyclic topologies.",
  [S+"interpretation-graph.cpp", S+"label-graph.cpp"],
  [("loop search including side queries", S+"interpretation-graph.cpp: CheckForLoops, PrettyPrintLoop"), ("DNAME loop cut in class generation", S+"label-graph.cpp: SubDomainECGeneration, SearchNode")],
  ["report entries with Property Cyclic Zone Dependency", "termination"])
p("C17", "All presentations of the same zone load as the same records",
  "Every way of writing the same records in master-file format (absolute or relative names, $ORIGIN, @, omitted owner, omitted or reordered TTL and class, $TTL, parentheses over lines, comments, blank lines, tabs, letter case, missing final newline, metadata origin, lines in between that hold no supported record) yields exactly those records: owner, type, TTL and data, with relative names completed in owners and in the targets of NS, CNAME, DNAME and MX. "
  "Owner labels that look like type names, TTLs or classes are still owners. "
  "The number of records reported as parsed and the per-type counts equal the number written.",
  ["inputs"], "all record sets and all combinations of presentation features",
  "Tests load a few fixed files; combinations of presentation features are unbounded.",
  [S+"zone-file-parser.cpp", S+"resource-record.cpp", S+"utils.cpp"],
  [("tokenizer and record assembly", S+"zone-file-parser.cpp: zone_file_tokens, Parser"), ("label splitting", S+"utils.cpp: StringToLabels")],
  ["zone contents, record counts, report"])
p("C18", "Ill-formed records are excluded, all others kept, and lint says which",
  "Of the records in a zone file exactly these have no effect on the analysis: exact duplicates, a second CNAME or DNAME at a name, a CNAME beside other data or other data beside a CNAME (the first one in the file wins), records outside the zone, over-long names or labels (also as NS/CNAME/DNAME target), unsupported types and ungrammatical lines; every other record is kept. "
  "With lint on, the lint file has exactly one issue for each of the former (except unsupported or ungrammatical ones) with file, line, record and kind, and one for each in-zone NS target without an address record in the zone. "
  "Lint never changes the report.",
  ["inputs"], "all zone files mixing valid and ill-formed records in any order",
  "Tests check one lint file.",
  [S+"zone-file-parser.cpp", S+"zone-graph.cpp", S+"utils.cpp"],
  [("acceptance", S+"zone-graph.cpp: AddResourceRecord, CheckZoneMembership"), ("lint", S+"utils.cpp: LintUtils", ), ("glue check", S+"zone-graph.cpp: CheckGlueRecordsPresence")],
  ["zone contents, lint.json, type counts"])
p("C19", "Any zone-file bytes are handled without corruption, crash or hang",
  "Loading a zone file with arbitrary bytes, followed by checking jobs, never reads or writes out of bounds, never hits undefined behaviour, never hangs and never aborts with an unhandled error; it either ends with the documented fatal diagnostics or finishes. "
  "Whenever it finishes, the report is a complete well-formed JSON file, and other zone files of the run are loaded and analysed as if the damaged file held only its readable records. "
  "Readable records before the damaged place are kept.",
  ["inputs"], "all byte strings as zone files",
  "No test feeds malformed bytes.",
  [S+"zone-file-parser.cpp", S+"driver.cpp", S+"utils.cpp", S+"zone-graph.cpp"],
  [("tokenizer callback", S+"zone-file-parser.cpp: Parser"), ("report writer", S+"driver.cpp: WriteViolationsToFile")],
  ["exit status, sanitizer reports, report file"])
p("C20", "Jobs are independent of each other",
  "The report of a sequence of jobs contains exactly the union of what each job reports when run alone on the same zone data, whatever the order, repetition and mixture of jobs, and the number of examined queries of a job is the same as when run alone. "
  "In particular limits, type lists, domains and switches of one job never leak into another. "
  "All-alias entries stay separate per job.",
  ["histories", "configurations"], "all sequences of jobs on one loaded zone collection",
  "Tests run a single job list; state leaking between jobs needs specific orders.",
  [S+"driver.cpp", S+"job.h", S+"label-graph.cpp"],
  [("reset of the job state", S+"driver.cpp: SetJob")],
  ["report after each job of a sequence, class counts"])
p("C21", "The report does not depend on thread scheduling",
  "Under every interleaving of the generator, worker and collector threads, a job processes every generated query exactly once, delivers every finding to the report, terminates, and yields a byte-identical report. "
  "No two threads access the same data without synchronisation when one of them writes. "
  "The number of examined queries is the same in every run.",
  ["schedules"], "all interleavings of the producer, eight consumers and two collectors",
  "A test run sees one or few interleavings chosen by the operating system.",
  [S+"driver.cpp", S+"label-graph.cpp", S+"ec-task.cpp"],
  [("queue hand-off and termination detection", S+"driver.cpp: GenerateECsAndCheckProperties"), ("producer threads", S+"label-graph.cpp: GenerateECs")],
  ["report bytes and class counts across controlled schedules", "thread sanitizer"])
p("C22", "Reports are invariant under meaning-preserving changes of the input",
  "Reordering records within a zone file, zone files within the metadata, name servers within the top list, or properties and values within a job, changing letter case anywhere in names, adding zone files that no query of the job can reach, or renaming zone files leaves the set of findings unchanged up to the order inside lists. "
  "Renaming a label consistently everywhere renames it in the findings and changes nothing else. "
  "Findings therefore depend only on the DNS data.",
  ["inputs", "configurations"], "all zone collections and jobs, all such transformations",
  "Tests never compare two runs.",
  [S+"driver.cpp", S+"zone-file-parser.cpp", S+"interpretation-graph.cpp", S+"label-graph.cpp"],
  [("lower-casing at every entry", S+"driver.cpp: SetContext, SetJob; "+S+"zone-file-parser.cpp"), ("label comparison", S+"node-label.cpp")],
  ["reports of transformed inputs"])
p("C23", "Names with very many children behave like any other",
  "Zone lookups, delegations, duplicate detection and query examination give the same results whether a name has a few or many hundreds of children, in every order in which children, wildcards, DNAMEs and delegations are added. "
  "In particular every child added before or after the internal switch to an index is found, and no node is created twice. "
  "Answers depend only on the record set.",
  ["inputs"], "all zones with up to thousands of names under one parent and all insertion orders",
  "No test exceeds a hundred names; the indexed code path (over 500 children) is never executed by tests.",
  [S+"zone-graph.cpp", S+"label-graph.cpp", S+"node-label.h"],
  [("child index", S+"zone-graph.cpp: ConstructChildLabelsToVertexDescriptorMap, GetAncestor, GetClosestEncloser"), ("child index", S+"label-graph.cpp: ConstructChildLabelsToVertexDescriptorMap, GetAncestor, SearchNode")],
  ["zone lookups, report, zone contents"])
p("C24", "The program turns its inputs into a complete, valid report",
  "Run on a zone directory with or without a jobs file, the program writes to the requested output file one valid JSON array holding exactly the findings of all jobs without repetition; without a jobs file it checks the default properties (Hops 2, Rewrites 1, delegation consistency, lame delegation, query rewrite, rewrite blackholing) on all names. "
  "With lint on, lint.json is a valid JSON array; special characters in the zone data never break either file. "
  "Metadata that lacks a required field, names a missing zone file, or has no top server among the servers is rejected with failure status before anything is analysed.",
  ["inputs", "configurations"], "all metadata, job files and option combinations",
  "One command line is tested through the library; the program itself is never run by the tests.",
  ["bin/groot.cpp", S+"driver.cpp", S+"utils.cpp"],
  [("command line and file handling", "bin/groot.cpp: Main, main"), ("metadata checks", S+"driver.cpp: MetadataSanityCheck"), ("default job", S+"driver.cpp: SetJob(string)")],
  ["output file, lint.json, exit status"])
p("C25", "Failures are visible: exit status 0 means the complete report was written",
  "The program ends with status 0 only if it has written the complete report to the requested output file. "
  "When the metadata or jobs file is missing, cut off or not JSON, lacks a needed field or has one of the wrong kind (in any job, also after good ones), when a zone file is missing or a directory, when the arguments are wrong, or when the output file cannot be opened or written completely, it ends with a failure status, without crash or hang, and without writing or changing a report (other than one it could not complete). "
  "Metadata and jobs written in another JSON notation (order of fields, white space, escapes) give the same report.",
  ["inputs", "fault_sequences"], "all damaged or mistyped metadata and jobs files, all failing output paths, every point at which writing can fail",
  "The program and its exit status are never tested, and no test feeds a damaged file or lets a write fail.",
  ["bin/groot.cpp", S+"driver.cpp"],
  [("outcome of the program", "bin/groot.cpp: Main, main"), ("jobs", S+"driver.cpp: SetJob"), ("report file", S+"driver.cpp: WriteViolationsToFile")],
  ["exit status, output file"])
p("C26", "The printed and logged statistics describe the run",
  "With -s the program prints, and with -l it logs to log.txt, exactly once each: the number of records parsed from all zone files, the accepted records per type (and wildcard ones) and the excluded ones per reason; for every job in order its domain, the number of examined queries and the largest, smallest and mean size of the resolution graphs of its queries (server and query pairs; steps between them); the number of examined queries over all jobs; and the number of entries in the report. "
  "Every figure is the true one, figures of one job never include those of another, and without -s and -l no statistics are printed or logged.",
  ["inputs", "schedules"], "all zone data, job sequences and option combinations",
  "No test looks at any statistic except the query count of single jobs.",
  ["bin/groot.cpp", S+"driver.cpp", S+"ec-task.cpp", S+"zone-file-parser.cpp"],
  [("statistics of a job", S+"driver.cpp: GenerateECsAndCheckProperties, WriteStatsForAJob"), ("record counts", S+"driver.cpp: SetContext"), ("totals", "bin/groot.cpp: Main")],
  ["standard output, log.txt"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P))
