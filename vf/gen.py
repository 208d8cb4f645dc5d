"""Generators of DNS configurations (zone files of several servers), jobs and properties."""
import random

from .model import labels, text, under, nlen

POOL = ["a", "b", "c", "d", "e", "w", "x", "y", "ns1", "ns2"]

KNOBS = dict(
    apex_multi=0.3, apex_root=0.12, children=(0, 1, 1, 2, 2, 3), child_deep=0.2, servers=(1, 1, 2, 2, 3),
    unknown_srv=0.12, foreign_srv=0.35, top_srv=0.15, lame=0.1, deep_srv=0.15, anc_srv=0.04, glue=0.75, glue6=0.2, apex_ns=0.9, child_ns_same=0.6,
    recs=(0, 1, 2, 3, 4, 6), cname=0.25, dname=0.1, wild=0.15, deep=0.35, occluded=0.2, mut=0.35, mut_n=(1, 1, 2),
    ttls=(300,), extra_top=0.12, target_known=0.75, alias_chain=0.3, self_ref=0.1, extra_zone=0.1, long=0.0,
    nsowner=0.06, soa_less=0.0, orphan=0.06, big=0.07, odd=0.05, rare=0.06, loop=0.15,
)

ODD = ["aa", "xa", "ab", "xt", "_s", "0", "a-b", "ns11", "a@", "*a", "a\\.b", "\\.c"]   # labels that end in or begin with others, and odd ones

RARE = ["PTR", "SRV", "SPF", "DS", "RRSIG", "NSEC"]
SIMPLE_TYPES = ["A", "AAAA", "TXT", "MX", "NS", "CNAME", "DNAME", "SOA"]


def knobs(**over):
    k = dict(KNOBS)
    k.update(over)
    return k


def wchoice(r, pairs):
    t = sum(w for _, w in pairs)
    x = r.random() * t
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


def child(l, base):
    return l + "." + ("" if base == "." else base)


def norm(n):
    return text(labels(n))


class SysGen:
    def __init__(self, r, K):
        self.r, self.K = r, K
        self.origins = []          # (origin, parent or None)
        self.servers = {}          # origin -> servers
        self.names = []            # names mentioned so far

    def label(self):
        r = self.r
        if self.K["long"] and r.random() < self.K["long"]:
            return r.choice("abc") * r.choice([40, 60, 62, 63])
        if r.random() < self.K["wild"]:
            return "*"
        return self.plain()

    def plain(self):
        if self.r.random() < self.K["odd"]:
            return self.r.choice(ODD)
        return self.r.choice(POOL)

    def server_for(self, origin, parent):
        r, K = self.r, self.K
        x = r.random()
        if x < K["unknown_srv"]:
            return r.choice(["ns3.x.", "ns.u.", child("ns9", origin), child("ns9", parent or origin)])
        if x < K["unknown_srv"] + K["top_srv"]:
            return r.choice(self.topsrv)
        if x < K["unknown_srv"] + K["top_srv"] + K["foreign_srv"]:
            o = r.choice(self.origins)[0]
            if r.random() < 0.3 and self.servers.get(o):
                return r.choice(self.servers[o])
            return child(r.choice(["ns1", "ns2"]), o)
        if r.random() < K["anc_srv"]:
            return r.choice([x for x in (origin, parent or origin, text(labels(origin)[:-1])) if labels(x)] or ["ns1."])
        if r.random() < K["deep_srv"]:
            return child(r.choice(["ns1", "ns2"]), child(self.plain(), origin))
        return child(r.choice(["ns1", "ns2"]), origin)

    def rdata(self, typ, origin):
        r = self.r
        if typ == "A":
            return "1.0.0.%d" % r.randint(1, 4)
        if typ == "AAAA":
            return "::%d" % r.randint(1, 3)
        if typ == "TXT":
            # sometimes the same text as the data of an A record, or long
            if r.random() < 0.06:
                k = r.choice([31, 64, 128, 240])
                return '"%s%d%s"' % ("v" * r.choice([0, k]), r.randint(1, 3), "w" * r.choice([0, k]))
            return '"v%d"' % r.randint(1, 3) if r.random() < 0.85 else "1.0.0.%d" % r.randint(1, 4)
        if typ == "MX":
            return "%d %s" % (r.choice([5, 10, 10, 5, 100, 32767]), self.target(origin))
        if typ in RARE:
            h = "h%d.%s" % (r.randint(1, 3), origin if origin != "." else "")
            return {"PTR": h, "SRV": "1 5 80 " + h, "SPF": '"v=spf%d -all"' % r.randint(1, 2),
                    "DS": "%d 8 2 abcdef0123" % r.randint(1, 3), "NSEC": h + " a ns rrsig nsec",
                    "RRSIG": "a 8 3 300 20300101000000 20200101000000 %d t. ab9==" % r.randint(1, 3)}[typ]
        return self.target(origin)

    def target(self, origin):
        r = self.r
        if self.names and r.random() < self.K["target_known"]:
            n = r.choice(self.names)
            if n.startswith("*.") and r.random() < 0.7:
                n = child(self.plain(), n[2:] or ".")
            elif r.random() < 0.12:
                n = child(self.plain(), n)
            return n
        o = r.choice(self.origins)[0]
        if r.random() < 0.1:
            return o
        n = child(self.plain(), o)
        if r.random() < 0.25:
            n = child(self.plain(), n)
        if r.random() < 0.06:
            n = child(self.plain(), "z.")
        return n

    def owner(self, origin, cuts):
        r, K = self.r, self.K
        own = [n for n in self.names if under(labels(origin), labels(n))]
        if own and r.random() < 0.35:
            n = r.choice(own)
            if r.random() < 0.3:
                n = child(self.label(), n)
        elif cuts and r.random() < K["occluded"]:
            n = child(self.label(), r.choice(cuts))
        elif r.random() < 0.08:
            n = origin
        else:
            n = child(self.label(), origin)
            if r.random() < K["deep"]:
                n = child(self.label(), n)
                if r.random() < 0.25:
                    n = child(self.label(), n)
        return n

    def generate(self):
        r, K = self.r, self.K
        if r.random() < K["apex_root"]:
            apexes = ["."] if r.random() < 0.6 else [".", "t."]
        elif r.random() < K["apex_multi"]:
            apexes = ["t.", "u."]
        else:
            apexes = ["t."]
        self.origins = [(a, None) for a in apexes]
        self.topsrv = []
        for i in range(r.choice([1, 1, 1, 2])):
            s = r.choice([child("ns%d" % (i + 1), apexes[0]), "ns%d.top." % (i + 1)])
            if s not in self.topsrv:
                self.topsrv.append(s)
        for a in apexes:
            ss = [s for s in self.topsrv if r.random() < 0.8] or [r.choice(self.topsrv)]
            if r.random() < 0.1:
                s = child("ns2", a)
                if s not in ss:
                    ss.append(s)
            self.servers[a] = ss
        for _ in range(r.choice(K["children"])):
            parent = r.choice(self.origins)[0]
            o = child(self.plain(), parent)
            if r.random() < K["child_deep"]:
                o = child(self.plain(), o)
            if any(o == x for x, _ in self.origins) or nlen(labels(o)) > 200:
                continue
            self.origins.append((o, parent))
            ss = []
            for _ in range(r.choice(K["servers"])):
                s = self.server_for(o, parent)
                if s not in ss:
                    ss.append(s)
            self.servers[o] = ss
        if r.random() < K["extra_zone"]:
            o = r.choice(["v.", "x.", "z."])
            self.origins.append((o, None))
            self.servers[o] = [r.choice(["ns1." + o, r.choice(self.topsrv)])]
        # a child's parent is the zone with the longest origin above it
        self.names = [o for o, _ in self.origins]
        order = list(self.origins)
        zones = []
        base = {}
        for o, _ in order:
            base[o] = self.base_records(o)
        for o, _ in order:
            for s in self.servers[o]:
                if s in ("ns3.x.", "ns.u.") or s.startswith("ns9."):
                    continue
                if r.random() < K["lame"] and o not in apexes:
                    continue
                recs = [list(x) for x in base[o]]
                if r.random() < K["mut"]:
                    for _ in range(r.choice(K["mut_n"])):
                        self.mutate(recs, o)
                if not any(z["ns"] == s and z["origin"] == o for z in zones):
                    zones.append({"ns": s, "origin": o, "recs": sanitize(recs, o)})
        r.shuffle(zones)
        for i, z in enumerate(zones):
            z["file"] = "z%d.txt" % i
            if r.random() < 0.5:
                rest = z["recs"][1:]
                r.shuffle(rest)
                z["recs"] = z["recs"][:1] + rest
        tops = list(self.topsrv)
        if r.random() < K["extra_top"]:
            allsrv = sorted({s for v in self.servers.values() for s in v})
            s = r.choice(allsrv + ["ns9.x."])
            if s not in tops:
                tops.append(s)
        r.shuffle(tops)
        return {"zones": zones, "tops": tops}

    def base_records(self, o):
        r, K = self.r, self.K
        recs = [[o, "SOA", r.choice(K["ttls"]), "ns1.%s host.%s %d 2 3 4 5" % ("" if o == "." else o, "" if o == "." else o, r.randint(1, 3))]]
        ttl = lambda: r.choice(K["ttls"])

        def glue(s, p):
            if under(labels(o), labels(s)):
                if r.random() < p:
                    recs.append([s, "A", ttl(), self.rdata("A", o)])
                    if r.random() < 0.1:
                        recs.append([s, "A", ttl(), self.rdata("A", o)])
                if r.random() < K["glue6"]:
                    recs.append([s, "AAAA", ttl(), self.rdata("AAAA", o)])
        for s in self.servers[o]:
            if r.random() < K["apex_ns"]:
                recs.append([o, "NS", ttl(), s])
                glue(s, 0.85)
        if r.random() < 0.08:
            s = self.server_for(o, o)
            recs.append([o, "NS", ttl(), s])
            glue(s, 0.6)
        cuts = []
        for c, _ in self.origins:
            if c == o or not under(labels(o), labels(c)):
                continue
            near = max((x for x, _ in self.origins if x != c and under(labels(x), labels(c))), key=lambda x: len(labels(x)))
            if near != o and r.random() < 0.85:
                continue
            if r.random() < K["orphan"]:
                continue
            cuts.append(c)
            ss = list(self.servers[c])
            if r.random() >= K["child_ns_same"]:
                y = r.random()
                if y < 0.5 and len(ss) > 1:
                    ss.remove(r.choice(ss))
                else:
                    s = self.server_for(c, o)
                    if s not in ss:
                        ss.append(s)
            for s in ss:
                recs.append([c, "NS", ttl(), s])
                glue(s, K["glue"])
        n = r.choice(K["recs"])
        for _ in range(n):
            self.add_record(recs, o, cuts)
        return recs

    def add_record(self, recs, o, cuts):
        r, K = self.r, self.K
        own = self.owner(o, cuts)
        x = r.random()
        if x < K["cname"]:
            typ = "CNAME"
        elif x < K["cname"] + K["dname"]:
            typ = "DNAME"
        elif x < K["cname"] + K["dname"] + K["nsowner"]:
            typ = "NS"
        else:
            typ = wchoice(r, [("A", 6), ("AAAA", 2), ("TXT", 2), ("MX", 1)])
            if r.random() < K["rare"]:
                typ = r.choice(RARE)
        if typ == "NS":
            s = self.server_for(own if not own.startswith("*.") else o, o)
            recs.append([own, "NS", r.choice(K["ttls"]), s])
            if r.random() < 0.5 and under(labels(o), labels(s)):
                recs.append([s, "A", r.choice(K["ttls"]), self.rdata("A", o)])
        else:
            if typ == "DNAME" and own == ".":
                return
            if typ in ("CNAME", "DNAME") and r.random() < K["self_ref"]:
                t = r.choice([own, child(self.plain(), own), text(labels(own)[:-1])])
            else:
                t = self.rdata(typ, o)
            if typ == "DNAME" and nlen(labels(t)) == 0 and r.random() < 0.7:
                t = "t."
            recs.append([own, typ, r.choice(K["ttls"]), t])
            if typ in ("CNAME", "DNAME") and r.random() < K["alias_chain"]:
                self.names.append(t)
        if own not in self.names:
            self.names.append(own)

    def mutate(self, recs, o):
        r = self.r
        x = r.random()
        if x < 0.32 and len(recs) > 1:
            recs.pop(r.randint(1, len(recs) - 1))
        elif x < 0.35 and any(t == "A" for _, t, _, _ in recs):
            # another type with the same data
            i = r.choice([k for k, rec in enumerate(recs) if rec[1] == "A"])
            recs[i][1] = "TXT"
            if r.random() < 0.5:
                recs[i:i] = [[recs[i][0], "A", recs[i][2], recs[i][3]]]
        elif x < 0.6 and len(recs) > 1:
            i = r.randint(1, len(recs) - 1)
            t = recs[i][1]
            if t == "NS":
                recs[i][3] = self.server_for(o, o)
            elif t == "TXT" and r.random() < 0.5:
                # almost the same text
                d, k = recs[i][3].strip('"'), r.choice([0, 0, 31, 64, 200])
                d += "l" * k
                others = [list(x) for x in recs[i:i + 1]]
                recs[i][3] = '"%s%s"' % (d, r.choice("12"))
                if r.random() < 0.4:
                    others[0][3] = '"%s%s"' % (d, r.choice("34"))
                    recs[i:i] = others
            elif t != "SOA":
                recs[i][3] = self.rdata(t, o)
        elif x < 0.68 and len(recs) > 1:
            recs[r.randint(1, len(recs) - 1)][2] = r.choice(self.K["ttls"])
        elif x < 0.75:
            recs[0][3] = recs[0][3].replace(" 2 3 4 5", " 2 3 4 6")
        else:
            self.add_record(recs, o, [])


def sanitize(recs, origin):
    """Keeps what the loader keeps: one SOA first, no duplicates, no CNAME/DNAME conflicts, in-zone, valid lengths."""
    ol = labels(origin)
    out, seen, by = [], set(), {}
    for n, t, ttl, d in recs:
        l = labels(n)
        if not under(ol, l) or nlen(l) > 254 or any(len(x) > 63 for x in l):
            continue
        if t in ("NS", "CNAME", "DNAME") and (nlen(labels(d)) > 254 or any(len(x) > 63 for x in labels(d))):
            continue
        if t == "SOA" and out:
            continue
        if (l, t, d) in seen:
            continue
        have = by.setdefault(l, set())
        if t in ("CNAME", "DNAME") and t in have:
            continue
        if have and ("CNAME" in have or t == "CNAME"):
            continue
        if t == "DNAME" and not l:
            continue
        seen.add((l, t, d))
        have.add(t)
        out.append([n, t, ttl, d])
    return out


def gen_system(r, K):
    g = SysGen(r, K)
    s = g.generate()
    if r.random() < K["big"]:
        for _ in range(r.choice([1, 1, 2])):
            enlarge(r, s, K, g)
        for z in s["zones"]:
            z["recs"] = sanitize(z["recs"], z["origin"])
    s["_names"] = g.names
    return s


def enlarge(r, s, K, g):
    """Makes one dimension of a system much larger than usual."""
    zs = s["zones"]
    if not zs:
        return
    z = r.choice(zs)
    o, ttl = z["origin"], lambda: r.choice(K["ttls"])
    same = [y for y in zs if y["origin"] == o]
    kind = r.choice(["chain", "chain", "deep", "rrset", "zones", "siblings", "ns", "rr", "dchain", "glue", "copies", "tops"])
    if kind in ("chain", "dchain"):
        # a long chain of aliases, within one zone or over several
        n = r.choice([5, 8, 12, 20])
        hosts = [y for y in zs if y["origin"] != "." or kind == "chain"]
        where = [z] * n if r.random() < 0.5 or not hosts else [r.choice(hosts) for _ in range(n)]
        names = [child("k%d" % i, y["origin"]) for i, y in enumerate(where)]
        end = g.target(o)
        if r.random() < K["loop"]:
            end = r.choice(names if r.random() < 0.6 else names[:1])
        for i, y in enumerate(where):
            t = names[i + 1] if i + 1 < n else end
            typ = "CNAME" if kind == "chain" or (r.random() < 0.3) else "DNAME"
            if typ == "DNAME" and t == ".":
                t = "t."
            for q in zs:
                if q["origin"] == y["origin"] and (q is y or r.random() < 0.9):
                    q["recs"].append([names[i], typ, ttl(), t])
        g.names.append(names[0])
        if kind == "dchain":
            g.names.append(child("a", names[0]))
    elif kind == "deep":
        n, l = o, r.choice(["a", "b", "w"])
        for _ in range(r.choice([6, 10, 20, 40, 100])):
            n = child(l if r.random() < 0.8 else r.choice(POOL), n)
            if nlen(labels(n)) > 240:
                break
        cut = labels(n)
        for y in same:
            for _ in range(r.choice([1, 2, 3])):
                m = text(cut[:r.randint(min(len(cut), len(labels(o)) + 1), len(cut))])
                t = r.choice(["A", "A", "TXT", "CNAME", "NS", "DNAME"])
                if r.random() < 0.3:
                    m = child("*", m)
                d = g.rdata(t, o) if t != "NS" else g.server_for(o, o)
                y["recs"].append([m, t, ttl(), "t." if t == "DNAME" and d == "." else d])
                g.names.append(m)
    elif kind == "rrset":
        m = g.owner(o, [])
        t = r.choice(["A", "TXT", "MX", "AAAA"])
        n = r.choice([8, 20, 40])
        for y in same:
            if r.random() < 0.9:
                for i in range(n - r.choice([0, 0, 1])):
                    y["recs"].append([m, t, ttl(), {"A": "2.0.0.%d", "TXT": '"r%d"', "MX": "%d n.t.", "AAAA": "1::%d"}[t] % i])
        g.names.append(m)
    elif kind == "ns":
        m = r.choice([rec[0] for rec in z["recs"] if rec[1] == "NS"] or [o])
        n = r.choice([4, 6, 9])
        ss = [child("ns%d" % i, r.choice([m, m, o, "x."])) for i in range(1, n + 1)]
        for y in same:
            for q in ss:
                if r.random() < 0.9:
                    y["recs"].append([m, "NS", ttl(), q])
                    if under(labels(y["origin"]), labels(q)) and r.random() < 0.9:
                        y["recs"].append([q, "A", ttl(), g.rdata("A", o)])
    elif kind == "glue":
        # a server with many addresses, the copies of which differ in few
        cand = sorted({rec[3] for y in zs for rec in y["recs"] if rec[1] == "NS" and under(labels(y["origin"]), labels(rec[3]))})
        if cand:
            q = r.choice(cand)
            n, p = r.choice([3, 5, 9, 14]), r.choice([1, 1, 1, 0.97, 0.9])
            for y in zs:
                if under(labels(y["origin"]), labels(q)):
                    have = r.random() < 0.95
                    for i in range(n - (r.random() < 0.25)):
                        if have and r.random() < p:
                            y["recs"].append([q, "A", ttl(), "3.0.0.%d" % i] if i % 3 else [q, "AAAA", ttl(), "3::%d" % i])
    elif kind == "copies":
        # a zone held by many servers
        p = r.choice([0, 0.3, 1])
        for i in range(r.choice([2, 4, 6])):
            new = {"ns": child("c%d" % i, r.choice([o, "x."])), "origin": o, "file": "c%d_%d.txt" % (i, len(zs)), "recs": [list(x) for x in z["recs"]]}
            if any(y["ns"] == new["ns"] and y["origin"] == o for y in zs):
                continue
            if r.random() < p:
                g.mutate(new["recs"], o)
            zs.append(new)
            if r.random() < 0.3:
                for y in zs:
                    if y["origin"] != o and under(labels(y["origin"]), labels(o)) or r.random() < 0.3 and y["origin"] == o:
                        y["recs"].append([o, "NS", ttl(), new["ns"]])
                        if under(labels(y["origin"]), labels(new["ns"])) and r.random() < 0.7:
                            y["recs"].append([new["ns"], "A", ttl(), "1.0.0.1"])
    elif kind == "tops":
        # many top servers
        cand = sorted({y["ns"] for y in zs} | {"ns7.x.", "ns8.x."})
        r.shuffle(cand)
        for q in cand[:r.choice([3, 5])]:
            if q not in s["tops"]:
                s["tops"].insert(r.randint(0, len(s["tops"])), q)
    elif kind == "rr":
        # many records of a name, many names
        for _ in range(r.choice([15, 25])):
            g.add_record(z["recs"], o, [])
    elif kind == "siblings":
        pat = r.choice(["s%d", "%d", "s%03d"])
        par = r.choice([o, g.owner(o, [])])
        if "*" in par:
            par = o
        for i in range(r.choice([12, 30, 60])):
            for y in same:
                if r.random() < 0.95:
                    t = r.choice(["A", "A", "A", "TXT", "CNAME", "NS"])
                    d = g.rdata(t, o) if t != "NS" else g.server_for(o, o)
                    y["recs"].append([child(pat % i, par), t, ttl(), d])
    else:
        # a chain of delegations over many levels
        parent, ns, k = z, z["ns"], r.choice([3, 5, 8])
        for i in range(k):
            c = child(r.choice(["l", "m"]), parent["origin"])
            if any(y["origin"] == c for y in zs) or nlen(labels(c)) > 150:
                break
            srv = r.choice([child("ns1", c), child("ns1", c), ns, parent["ns"]])
            for y in zs:
                if y["origin"] == parent["origin"]:
                    y["recs"].append([c, "NS", ttl(), srv])
                    if under(labels(y["origin"]), labels(srv)) and r.random() < K["glue"]:
                        y["recs"].append([srv, "A", ttl(), "1.0.0.1"])
            new = {"ns": srv, "origin": c, "file": "l%d_%d.txt" % (i, len(zs)),
                   "recs": [[c, "SOA", ttl(), "%s host.%s 1 2 3 4 5" % (srv, c)], [c, "NS", ttl(), srv]]}
            if under(labels(c), labels(srv)):
                new["recs"].append([srv, "A", ttl(), "1.0.0.1"])
            g.names.append(c)
            g.add_record(new["recs"], c, [])
            zs.append(new)
            parent = new


def all_names(case):
    out = []
    for z in case["zones"]:
        for n, t, _, d in z["recs"]:
            out.append(n)
            if t in ("CNAME", "DNAME", "NS"):
                out.append(d)
    return sorted(set(out))


def gen_domain(r, case):
    names = all_names(case) or ["t."]
    origins = sorted({z["origin"] for z in case["zones"]}) or ["t."]
    dn = [(n, d) for z in case["zones"] for n, t, _, d in z["recs"] if t == "DNAME"]
    if dn and r.random() < 0.15:
        # a name that exists only because a DNAME leads to it
        o, t = r.choice(dn)
        tl = labels(t)
        below = [n for n in names if under(tl, labels(n)) and len(labels(n)) > len(tl)]
        suf = labels(r.choice(below))[len(tl):] if below else (r.choice(POOL),)
        return text(labels(o) + suf)
    if r.random() < 0.012:
        # beyond a length limit (nothing is examined), or just within it
        o = "." + r.choice(origins).rstrip(".")
        o = o if o.endswith(".") else o + "."
        if r.random() < 0.5:
            return "l" * r.choice([63, 64, 65]) + o
        total = r.choice([254, 255, 256, 300])
        d = o[1:]
        while total - len(d) > 1:
            k = min(total - len(d) - 1, 60)
            if total - len(d) - 1 - k == 1:
                k -= 1
            d = "m" * k + "." + d
        return d
    x = r.random()
    if x < 0.12:
        return "."
    if x < 0.42:
        d = min(origins, key=lambda o: len(labels(o)))
    elif x < 0.62:
        d = r.choice(origins)
    elif x < 0.84:
        d = r.choice(names)
    elif x < 0.95:
        d = child(r.choice(POOL), r.choice(names))
        if r.random() < 0.3:
            d = child(r.choice(POOL), d)
    else:
        d = r.choice(["q.", "q.t.", "t.", "u."])
    return d


def mixcase(r, s, p=0.12):
    if r.random() < p:
        return "".join(c.upper() if r.random() < 0.5 else c for c in s)
    return s


def gen_types(r, weights=None):
    pool = weights or [("A", 6), ("AAAA", 3), ("NS", 3), ("CNAME", 3), ("TXT", 2), ("MX", 2), ("DNAME", 1), ("SOA", 1)] + [(t, 0.2) for t in RARE]
    k = r.choice([1, 1, 1, 2, 2, 3])
    out = []
    while len(out) < k:
        t = wchoice(r, pool)
        if t not in out:
            out.append(t)
    return out


def gen_prop(r, name, case):
    p = {"PropertyName": name}
    names = all_names(case) or ["t."]
    if name in ("Hops", "Rewrites"):
        p["Value"] = r.choice([0, 1, 1, 2, 2, 3, 4] if name == "Hops" else [0, 0, 1, 1, 2, 3])
        if r.random() < 0.05:
            p["Value"] = r.choice([5, 7, 11, 19, 20, 255, 256, 2147483647])
    elif name in ("QueryRewrite", "NameserverContact"):
        cand = [z["origin"] for z in case["zones"]] + [text(labels(n)[:-1]) for n in names] + names
        cand = [c for c in cand if c != "."] or ["t."]
        v = []
        for _ in range(r.choice([1, 1, 2, 3, 3, 5, 8])):
            d = r.choice(cand)
            if r.random() < 0.1:
                d = "x" + d          # label-wise, not string-wise
            elif r.random() < 0.06:
                d = d[:-1]
            if r.random() < 0.03:
                d = "."
            v.append(mixcase(r, d))
        p["Value"] = v
    elif name == "AllAliases":
        cn = [d for z in case["zones"] for _, t, _, d in z["recs"] if t in ("CNAME", "DNAME")]
        names = [n for n in names + cn if n != "."] or ["t."]
        p["Value"] = [mixcase(r, r.choice(names)[:-1] if r.random() < 0.06 else r.choice(cn) if cn and r.random() < 0.75 else r.choice(names))
                      for _ in range(r.choice([1, 1, 2, 3, 4]))]
    elif name == "ResponseValue":
        p["Types"] = gen_types(r, [("A", 8), ("AAAA", 2), ("NS", 3), ("CNAME", 2), ("TXT", 2), ("MX", 2)] + [(t, 0.3) for t in RARE])
        vals = [d for z in case["zones"] for _, t, _, d in z["recs"] if t in p["Types"]]
        v = []
        byname = {}
        for z in case["zones"]:
            for n, t, _, d in z["recs"]:
                if t in p["Types"]:
                    byname.setdefault((z["file"], n), []).append(d)
        if byname and r.random() < 0.7:
            v = list(byname[r.choice(sorted(byname))])
            if r.random() < 0.15 and vals:
                v.append(r.choice(vals))
        else:
            for _ in range(r.choice([1, 1, 2])):
                v.append(r.choice(vals) if vals and r.random() < 0.9 else "1.0.0.1")
        p["Value"] = [mixcase(r, x, 0.08) for x in sorted(set(v))]
    elif name in ("ResponseConsistency", "ResponseReturned", "ZeroTTL"):
        p["Types"] = gen_types(r)
    return p


ALLPROPS = ["Hops", "Rewrites", "QueryRewrite", "NameserverContact", "RewriteBlackholing", "AllAliases",
            "DelegationConsistency", "LameDelegation", "ResponseConsistency", "ResponseReturned", "ResponseValue",
            "ZeroTTL", "DNAMESubstitutionCheck", "InfiniteDNameRec", "StructuralDelegationConsistency"]


def gen_job(r, case, main, others=0.35, sub=0.72):
    props = [gen_prop(r, main, case)]
    if r.random() < others:
        for _ in range(r.choice([1, 1, 2])):
            n = r.choice([x for x in ALLPROPS if x not in ("StructuralDelegationConsistency",)])
            if n != main:
                props.append(gen_prop(r, n, case))
    elif r.random() < 0.08:
        # nearly everything at once
        for n in ALLPROPS:
            if n != "StructuralDelegationConsistency" and n != main and r.random() < 0.85:
                props.append(gen_prop(r, n, case))
    r.shuffle(props)
    dom = gen_domain(r, case)
    if r.random() < 0.05 and dom != ".":
        dom = dom[:-1]      # the last dot may be left out
    return {"Domain": mixcase(r, dom, 0.06), "SubDomain": r.random() < sub, "Properties": props}


def render_zone(z):
    return "".join("%s %d IN %s %s\n" % (n, ttl, t, d) for n, t, ttl, d in z["recs"])


def render(case, **extra):
    c = {"files": {z["file"]: render_zone(z) for z in case["zones"]},
         "meta": {"TopNameServers": case["tops"],
                  "ZoneFiles": [{"FileName": z["file"], "NameServer": z["ns"]} for z in case["zones"]]}}
    c.update(extra)
    return c
