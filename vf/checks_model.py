"""C01-C16: generated configurations checked against the reference model."""
import json, random
from collections import Counter

from . import gen as G
from . import model as M
from .model import labels, text, under, TooBig
from .proto import out_json
from .run import Check, Skip, Violation


def jkey(x):
    return json.dumps(x, sort_keys=True)


def zones_of(case):
    """Model zones in the order the files are loaded."""
    return [M.Zone(z["ns"], z["origin"], z["recs"]) for z in case["zones"]]


def system_of(case):
    return M.System(zones_of(case), list(case["tops"]))


def valid_case(case, bare=False):
    if not case.get("zones") or not case.get("tops"):
        return False
    ns = {z["ns"] for z in case["zones"]}
    if not any(t in ns for t in case["tops"]):
        return False
    for z in case["zones"]:
        if not z["recs"] or z["recs"][0][1] != "SOA" or z["recs"][0][0] != z["origin"]:
            return False
        if G.sanitize(z["recs"], z["origin"]) != [list(x) for x in z["recs"]]:
            return False
    if len({(z["ns"], z["origin"]) for z in case["zones"]}) != len(case["zones"]):
        return False
    for j in case.get("jobs", []):
        if j is None:
            continue
        if not j["Properties"] and not bare:
            return False
        for p in j["Properties"]:
            if "Types" in p and not p["Types"]:
                return False
            if "Value" in p and isinstance(p["Value"], list) and not p["Value"]:
                return False
    return True


class Budget:
    def __init__(self, ecs=150, paths=4000, walk=60000):
        self.ecs, self.paths, self.walk = ecs, paths, walk


def analyse(system, job, budget=None):
    """[(class, resolution, paths, ends)] for every class of a job; raises Skip when too large."""
    b = budget or Budget()
    try:
        ecs, structural = system.classes(job, limit=b.ecs)
        out, left, walk = [], b.paths, b.walk
        for ec in ecs:
            res = M.Resolution(system, ec, limit=300)
            walk -= res.walk_cost(walk)
            if walk <= 0:
                raise TooBig
            paths, ends = res.executions(limit=left)
            left -= len(paths)
            if left <= 0:
                raise TooBig
            out.append((ec, res, paths, ends))
        return out, structural
    except (TooBig, RecursionError):
        raise Skip


def entries(res, prop):
    return [e for e in out_json(res["out"]) if e.get("Property") == prop]


def under_(o, n):
    return G.under(labels(o), labels(n))


def distinct(name, es, canon):
    """The canonical forms; entries that differ only in what the form drops (order of a list) are no repetition."""
    if len({jkey(e) for e in es}) != len(es):
        raise Violation("%s: the report repeats an entry" % name)
    return list({jkey(c): c for c in map(canon, es)}.values())


def compare(name, expected, actual, context=""):
    e, a = {jkey(x) for x in expected}, {jkey(x) for x in actual}
    if len(actual) != len(a):
        raise Violation("%s: the report repeats an entry %s" % (name, context))
    miss, extra = sorted(e - a), sorted(a - e)
    if miss or extra:
        raise Violation("%s: report differs from the model %s\n missing (%d): %s\n unexpected (%d): %s"
                        % (name, context, len(miss), "\n   ".join(miss[:4]), len(extra), "\n   ".join(extra[:4])))


class ModelCheck(Check):
    K = G.knobs()
    prop = None            # PropertyName
    reported = None        # Property field of the report
    others, sub = 0.3, 0.75
    budget = None

    def gen(self, r, i):
        k = self.K
        case = G.gen_system(r, k)
        case.pop("_names")
        self.tweak(r, case)
        if not valid_case(case):
            return None
        case["jobs"] = [self.gen_job(r, case)]
        # drop systems that are too large before anything is run
        case_sys = system_of(case)
        try:
            ana, _ = analyse(case_sys, case["jobs"][0], self.budget)
        except Skip:
            return None
        if not self.interesting(case, ana) and r.random() < self.keep_boring():
            return None
        return case

    boring = 0.7

    def keep_boring(self):
        return self.boring

    def interesting(self, case, ana):
        return True

    def tweak(self, r, case):
        pass

    def gen_job(self, r, case):
        return G.gen_job(r, case, self.prop, self.others, self.sub)

    def valid(self, case):
        return valid_case(case)

    def execute(self, env, case, **extra):
        return env.run(G.render(case, jobs=case["jobs"], **extra))


class PathCheck(ModelCheck):
    """Properties whose entries are a function of the executions."""

    def props(self, job):
        return [p for p in job["Properties"] if p["PropertyName"] == self.prop]

    def run(self, env, case):
        s = system_of(case)
        exp = []
        job = case["jobs"][0]
        ana, _ = analyse(s, job, self.budget)
        paths_n = 0
        for ec, res, paths, ends in ana:
            paths_n += len(paths)
            for p in self.props(job):
                exp += M.SIMPLE[self.prop](res, paths, ends, p)
        r = self.execute(env, case)
        act = entries(r, self.reported)
        compare(self.reported, [self.canon(e) for e in exp], distinct(self.reported, act, self.canon))
        feats = ["reported"] if exp else ["silent"]
        return self.nontrivial(case, ana, exp), feats + self.features(ana)

    def canon(self, e):
        return e

    def nontrivial(self, case, ana, exp):
        return bool(exp) or any(any(len(p) > 3 for p in paths) for _, _, paths, _ in ana)

    def features(self, ana):
        f = set()
        for ec, res, paths, ends in ana:
            for n in res.list:
                t = n.tag()
                if t:
                    f.add("tag:" + t)
            if any(sd is not None for n in res.list for _, sd in n.out):
                f.add("side-query")
        return sorted(f)


def has_exp(cls):
    def interesting(self, case, ana):
        job = case["jobs"][0]
        for ec, res, paths, ends in ana:
            for p in self.props(job):
                if M.SIMPLE[self.prop](res, paths, ends, p):
                    return True
        return False
    cls.interesting = interesting
    return cls


# ---- C01 ----------------------------------------------------------------------------------------------------
class C01(ModelCheck):
    id = "C01"
    rule = ("random zone trees (1-3 servers per zone, wildcards, ENTs, DNAMEs, occluded data, long labels) with a job asking "
            "Hops 0 so that every examined query is visible; non-trivial: the domain has subdomains examined, is absent, or "
            "reached through a DNAME, and at least 3 queries or one concrete-name comparison was made")
    K = G.knobs(dname=0.22, wild=0.22, deep=0.5, cname=0.12, children=(0, 1, 1, 2), long=0.03)
    n_quick, n_thorough = 4000, 60000

    def tweak(self, r, case):
        if r.random() < 0.12 and case["zones"]:
            self.routes(r, case)

    def routes(self, r, case):
        """A name reached along several DNAMEs at once: copies of a zone that disagree, or DNAMEs in a row."""
        z = r.choice(case["zones"])
        o = z["origin"]
        if o == ".":
            return
        own = G.child(r.choice("abd"), o) if r.random() < 0.8 else o
        same = [y for y in case["zones"] if y["origin"] == o]
        n = r.randint(2, 5)
        if len(same) < n and r.random() < 0.7:
            # further servers, some of which nobody refers to
            for i in range(n - len(same)):
                y = {"ns": "ns%d.r." % i, "origin": o, "file": "r%d.txt" % i, "recs": [list(x) for x in z["recs"]]}
                case["zones"].append(y)
                same.append(y)
        tops = [y["origin"] for y in case["zones"] if y["origin"] != "."]
        targets = []
        for y in same:
            t = G.child(r.choice("abcdxy"), r.choice(tops))
            if r.random() < 0.15 and targets:
                t = r.choice(targets)
            targets.append(t)
            y["recs"].append([own, "DNAME", 300, t])
        l = r.choice(["w", "w", "x", "*"])
        for t in targets:
            if r.random() < 0.2:
                # one more step on the way
                u = G.child(r.choice("ekm"), r.choice(tops))
                for y in case["zones"]:
                    if under_(y["origin"], t) and r.random() < 0.9:
                        y["recs"].append([t, "DNAME", 300, u])
                t = u
            for y in case["zones"]:
                if under_(y["origin"], t) and r.random() < 0.85:
                    m = G.child(l, t)
                    y["recs"].append([m, "A", 300, "1.0.0.1"])
                    if r.random() < 0.5:
                        y["recs"].append([G.child(r.choice("pqr"), m), "A", 300, "1.0.0.2"])
        for y in case["zones"]:
            y["recs"] = G.sanitize(y["recs"], y["origin"])
        case["aim"] = r.choice([G.child("w" if l == "*" else l, own), G.child("p", G.child(l, own)), own, o])

    def gen_job(self, r, case):
        props = [{"PropertyName": "Hops", "Value": 0}]
        aim = case.pop("aim", None)
        x = r.random()
        if x < 0.5:
            props.append(G.gen_prop(r, "ResponseReturned", case))
        elif x < 0.65:
            props.append(G.gen_prop(r, r.choice(["ZeroTTL", "Rewrites"]), case))
        dom = aim if aim and r.random() < 0.8 else G.gen_domain(r, case)
        return {"Domain": G.mixcase(r, dom, 0.1), "SubDomain": r.random() < 0.72, "Properties": props}

    def gen(self, r, i):
        case = ModelCheck.gen(self, r, i)
        if case is not None:
            case["probe"] = r.randint(0, 1 << 30)
        return case

    def run(self, env, case):
        s = system_of(case)
        job = case["jobs"][0]
        ana, _ = analyse(s, job)
        dom = labels(job["Domain"].lower())
        r = self.execute(env, case)
        got = {e["Query"] for e in entries(r, "Hops")}
        want = {p[0].q() for _, _, paths, _ in ana for p in paths if len(p) > 1}
        if got != want:
            raise Violation("examined queries of %s differ\n missing: %s\n unexpected: %s"
                            % (job["Domain"], sorted(want - got)[:6], sorted(got - want)[:6]))
        n = r["jobs"][0]["ec"]
        if (n != len(ana)) if not job["SubDomain"] else (n < len({x[0] for x in ana})):
            raise Violation("%d queries counted for %s, %d examined" % (n, job["Domain"], len(ana)))
        # the types the queries ask for show in the missing responses
        exp = [e for ec, res, paths, ends in ana for p in job["Properties"] if p["PropertyName"] == "ResponseReturned"
               for e in M.SIMPLE["ResponseReturned"](res, paths, ends, p)]
        compare("ResponseReturned", exp, entries(r, "ResponseReturned"))
        m, nodes = s.enclosers(dom)
        if not M.valid_name(dom):
            return True, ["over-long domain"]
        probes = self.coverage(s, job, dom, got, case.get("probe", 0), m, case.get("concrete", ())) if case.get("strict") or not dname_below_dname(s) else 0
        feats = ["sub" if job["SubDomain"] else "exact", "absent" if m != len(dom) else "present"]
        if m == len(dom) and any(n != dom for n in nodes):
            feats.append("through-dname")
        if any("~" in q for q in got):
            feats.append("negative")
        return (len(got) > 2 or "through-dname" in feats or m != len(dom) or probes > 0), feats

    def valid(self, case):
        return valid_case(case) and any(p["PropertyName"] == "Hops" and p["Value"] == 0 for p in case["jobs"][0]["Properties"])

    def coverage(self, s, job, dom, got, seed, m, more=()):
        """Concrete names: each resolves like one of the observed queries (same servers, answers and records)."""
        if not M.valid_name(dom):
            return 0
        rr = random.Random(seed)
        concrete = set()
        if m != len(dom) or not job["SubDomain"]:
            concrete.add(dom)
        else:
            starts, frontier = {dom}, [(n, dom) for n in s.enclosers(dom)[1]]
            seen = set(frontier)
            while frontier and len(starts) < 40:
                node, nm = frontier.pop(rr.randrange(len(frontier)))
                for c in s.children.get(node, ()):
                    x = (c, nm + (c[-1],))
                    if x not in seen and M.valid_name(x[1]):
                        seen.add(x)
                        frontier.append(x)
                        starts.add(x[1])
                for t in s.dn.get(node, ()):
                    x = (t, nm)
                    if x not in seen:
                        seen.add(x)
                        frontier.append(x)
            pool = [l for v in s.vertices for l in v] + ["q0", "q1"]
            for n in sorted(starts):
                concrete.add(n)
                for _ in range(2):
                    c = n + tuple(rr.choice(pool) for _ in range(rr.choice([1, 1, 2])))
                    if M.valid_name(c):
                        concrete.add(c)
        sigs = set()
        try:
            for q in got:
                ex = q.startswith("~{ }.")
                nm = q[5:] if ex else q
                sigs.add(signature(s, labels(nm), ex))
            k = 0
            for c in [labels(x) for x in more] + sorted(concrete)[:60]:
                if "*" in c:
                    continue   # a literal asterisk label is a name of its own only where it exists
                k += 1
                sg = signature(s, c, False)
                if sg not in sigs:
                    res = M.Resolution(s, (c, M.ALLSET, False, False), limit=400)
                    if any(n.tag() == "YX" for n in res.list):
                        continue   # grows to the length limit: the number of steps depends on the length of the name
                    if not res.executions(300)[0] or \
                            not M.Resolution(s, (c, M.types_req(job), False, False), limit=400).executions(300)[0]:
                        continue   # every execution is a loop: no Hops entry shows that it was examined
                    raise Violation("no examined query of %s behaves like the concrete name %s (examined: %s)"
                                    % (job["Domain"], text(c), sorted(got)[:12]))
        except TooBig:
            return 0
        return k


def dname_below_dname(s):
    """Known finding C01-1: a DNAME whose target lies below the owner of a DNAME."""
    return any(t[:k] in s.dn for ts in s.dn.values() for t in ts for k in range(len(t)))


def signature(s, name, excluded):
    """The resolution of a query with all names of queries left out."""
    res = M.Resolution(s, (name, M.ALLSET, excluded, False), limit=400)
    num, out = {}, []

    def go(n):
        num[n] = len(num)
        a = None if n.ans is None else tuple((t, tuple(sorted(map(M.key, rs)))) for t, _, rs in n.ans)
        rec = [n.ns, a]
        out.append(rec)
        es = []
        for t, sd in n.out:
            if t not in num:
                go(t)
            sid = None
            if sd is not None:
                if sd not in num:
                    go(sd)
                sid = num[sd]
            es.append((num[t], sid))
        rec.append(tuple(es))
    go(res.root)
    return repr(out)


# ---- C02 ----------------------------------------------------------------------------------------------------
def lookup_types(tag, types, recs):
    """The types an answer is for; of no meaning for referrals, rewrites and CNAMEs."""
    if tag != "ANS" or (recs and recs[0][1] == "CNAME"):
        return None
    return sorted(types)


def lookup_groups(recs):
    """Records in groups: an NS record with the address records that follow it, or a single record."""
    out, cur = [], None
    for n, t, ttl, d in recs:
        k = (labels(n), t, ttl, d)
        if t == "NS":
            cur = [k]
            out.append(cur)
        elif cur is not None and t in ("A", "AAAA") and labels(n) == labels(cur[0][3]):
            cur.append(k)
        else:
            cur = None
            out.append([k])
    return sorted(tuple([g[0]] + sorted(g[1:])) for g in out)


class C02(Check):
    id = "C02"
    rule = ("a random zone (cuts, glue, DNAMEs, wildcards, ENTs, CNAMEs, occluded data) written in two record orders and 25 random "
            "queries; non-trivial: the answers of the case show at least 3 different kinds (tag, wildcard, missing types)")
    n_quick, n_thorough = 5000, 150000
    K = G.knobs(children=(1, 2, 2, 3), dname=0.18, wild=0.25, deep=0.5, cname=0.2, occluded=0.4, recs=(3, 5, 8, 12), mut=0.2,
                ttls=(0, 10, 300), nsowner=0.1)

    def gen(self, r, i):
        case = G.gen_system(r, self.K)
        case.pop("_names")
        zs = [z for z in case["zones"]]
        if not zs:
            return None
        z = r.choice(zs)
        z = {"file": "z0.txt", "ns": "ns.t.", "origin": z["origin"], "recs": z["recs"]}
        rest = [list(x) for x in z["recs"][1:]]
        r.shuffle(rest)
        z2 = {"file": "z1.txt", "ns": "ns.t.", "origin": z["origin"], "recs": z["recs"][:1] + rest}
        names = sorted({x[0] for x in z["recs"]} | {text(labels(x[0])[:-1]) for x in z["recs"]}
                       | {x[3] for x in z["recs"] if x[1] in ("NS", "CNAME", "DNAME")})
        qs = []
        for _ in range(25):
            n = r.choice(names) if r.random() < 0.9 else z["origin"]
            while r.random() < 0.4:
                n = G.child(r.choice(G.POOL + ["*", "q"]), n)
            if not under(labels(z["origin"]), labels(n)) or not M.valid_name(labels(n)):
                n = z["origin"]
            if r.random() < 0.12:
                t = list(M.ALL)
            else:
                t = G.gen_types(r)
            qs.append({"name": n, "types": t, "excluded": r.random() < 0.3})
        return {"zones": [z, z2], "tops": ["ns.t."], "queries": qs}

    def valid(self, case):
        if len(case["zones"]) != 2 or not case["queries"] or not case["tops"] or case["tops"][0] != "ns.t.":
            return False
        for q in case["queries"]:
            if not q["types"]:
                return False
        return all(z["recs"] and z["recs"][0][1] == "SOA" and G.sanitize(z["recs"], z["origin"]) == [list(x) for x in z["recs"]]
                   for z in case["zones"])

    def run(self, env, case):
        look = [dict(q, zone=k) for k in range(2) for q in case["queries"]]
        r = env.run(G.render(case, lookups=look, jobs=[]))
        kinds = set()
        zs = [M.Zone(z["ns"], z["origin"], z["recs"]) for z in case["zones"]]
        for q, got in zip(look, r["lookups"]):
            z = zs[q["zone"]]
            exp = z.lookup(labels(q["name"]), frozenset(q["types"]), q["excluded"])
            e, g = [], []
            for t, ty, rs in exp:
                e.append((t, lookup_types(t, ty, rs), lookup_groups(rs)))
                kinds.add((t, bool(rs)))
                if t == "ANS" and rs and labels(rs[0][0])[-1:] == ("*",):
                    kinds.add("wild")
            for t, ty, rs in got or [("none", [], [])]:
                g.append((t, lookup_types(t, ty, rs), lookup_groups(rs)))
            if sorted(map(repr, e)) != sorted(map(repr, g)) or (e and e[0][0] in ("REWRITE", "REF", "NX") and g[0][0] != e[0][0]):
                raise Violation("lookup of %s %s%s in zone %s (order %d):\n expected %s\n got      %s"
                                % (q["name"], ",".join(q["types"]), " (names below)" if q["excluded"] else "",
                                   z.ns and text(z.origin), q["zone"], e, g))
        return len(kinds) >= 3, sorted(map(str, kinds))


# ---- C03 ----------------------------------------------------------------------------------------------------
class C03(Check):
    id = "C03"
    rule = ("random systems of zone files (referrals with and without glue, side queries, unknown/refusing servers, rewrites, long "
            "names) with 4 random queries, whole resolution graph compared; non-trivial: a graph has more than 3 nodes and a "
            "referral or rewrite")
    n_quick, n_thorough = 5000, 120000
    K = G.knobs(glue=0.45, unknown_srv=0.15, foreign_srv=0.45, cname=0.25, dname=0.15, long=0.02, recs=(1, 2, 4, 6))

    def gen(self, r, i):
        K = self.K if r.random() < 0.85 else G.knobs(long=0.5, dname=0.4, recs=(4, 6), self_ref=0.3)
        case = G.gen_system(r, K)
        case.pop("_names")
        if not valid_case(case):
            return None
        names = G.all_names(case)
        qs = []
        for _ in range(4):
            n = r.choice(names)
            while r.random() < 0.3:
                n = G.child(r.choice(G.POOL + ["q"]), n)
            if not M.valid_name(labels(n)):
                n = "t."
            qs.append({"name": n, "types": list(M.ALL) if r.random() < 0.15 else G.gen_types(r), "excluded": r.random() < 0.3})
        case["queries"] = qs
        s = system_of(case)
        try:
            for q in qs:
                M.Resolution(s, (labels(q["name"]), frozenset(q["types"]), q["excluded"], False), limit=300)
        except (TooBig, RecursionError):
            return None
        return case

    def valid(self, case):
        return valid_case(case) and case["queries"] and all(q["types"] for q in case["queries"])

    def run(self, env, case):
        s = system_of(case)
        r = env.run(G.render(case, graphs=case["queries"], jobs=[]))
        nt, feats = False, set()
        for q, g in zip(case["queries"], r["graphs"]):
            try:
                res = M.Resolution(s, (labels(q["name"]), frozenset(q["types"]), q["excluded"], False), limit=600)
            except TooBig:
                raise Skip

            def nk(n):
                return jkey([n.ns, n.q(), sorted(n.types)])
            exp_v = {}
            for n in res.list:
                exp_v[nk(n)] = self.ans([[t, ty, rs] for t, ty, rs in n.ans] if n.ans else None)
                if n.tag():
                    feats.add("tag:" + n.tag())
            exp_e = Counter((nk(n), nk(t), nk(sd) if sd else None) for n in res.list for t, sd in n.out)
            keys = [jkey([v[0], v[1], sorted(v[2])]) for v in g["v"]]
            if len(set(keys)) != len(keys):
                raise Violation("the same (server, query) occurs twice in the resolution of %s" % q)
            got_v = {k: self.ans(v[3]) for k, v in zip(keys, g["v"])}
            got_e = Counter((keys[a], keys[b], keys[c] if c is not None else None) for a, b, c in g["e"])
            if got_v != exp_v:
                d = sorted(k for k in set(got_v) | set(exp_v) if got_v.get(k, "absent") != exp_v.get(k, "absent"))[:3]
                raise Violation("resolution of %s: nodes differ\n %s" % (q, "\n ".join(
                    "%s expected %s got %s" % (k, exp_v.get(k, "absent"), got_v.get(k, "absent")) for k in d)))
            if got_e != exp_e:
                raise Violation("resolution of %s: steps differ\n missing %s\n unexpected %s"
                                % (q, list((exp_e - got_e).items())[:3], list((got_e - exp_e).items())[:3]))
            if any(e[2] for e in exp_e):
                feats.add("side-query")
            if len(exp_v) > 3 and ({"tag:REF", "tag:REWRITE"} & feats):
                nt = True
        return nt, sorted(feats)

    @staticmethod
    def ans(a):
        if a is None:
            return None
        return sorted(repr((t, sorted(M.key(x) for x in rs))) for t, ty, rs in a)


# ---- C04-C06, C08, C09, C14 -----------------------------------------------------------------------------------
class C04(PathCheck):
    id = "C04"
    rule = ("random systems and jobs with Hops and Rewrites limits 0-4; non-trivial: an entry is expected or an execution has "
            "more than 3 steps")
    K = G.knobs(children=(1, 2, 2, 3, 3), cname=0.3, dname=0.15, recs=(2, 3, 5), alias_chain=0.6)
    n_quick, n_thorough = 4500, 60000

    def gen_job(self, r, case):
        ps = []
        for n in ("Hops", "Rewrites"):
            if r.random() < 0.75:
                ps.append(G.gen_prop(r, n, case))
                if r.random() < 0.15:
                    ps.append(G.gen_prop(r, n, case))
        if not ps:
            ps = [G.gen_prop(r, "Hops", case)]
        j = G.gen_job(r, case, "Hops", 0.3)
        j["Properties"] = ps + [p for p in j["Properties"] if p["PropertyName"] not in ("Hops", "Rewrites")]
        r.shuffle(j["Properties"])
        return j

    def run(self, env, case):
        s = system_of(case)
        job = case["jobs"][0]
        ana, _ = analyse(s, job)
        exp = {"Hops": [], "Rewrites": []}
        for ec, res, paths, ends in ana:
            for p in job["Properties"]:
                n = p["PropertyName"]
                if n in exp:
                    exp[n] += M.SIMPLE[n](res, paths, ends, p)
        r = self.execute(env, case)
        for n in exp:
            compare(n, exp[n], entries(r, n))
        f = [n for n in exp if exp[n]] or ["silent"]
        return bool(exp["Hops"] or exp["Rewrites"]) or any(len(p) > 3 for a in ana for p in a[2]), f + self.features(ana)


class C05(PathCheck):
    id = "C05"
    rule = ("random systems with Query Rewrite / Name Server Contact jobs whose allowed domains are drawn from the names in use, "
            "their ancestors, near misses and mixed case; non-trivial: an entry is expected or some rewrite/contact is allowed")
    K = G.knobs(cname=0.35, dname=0.15, foreign_srv=0.5, unknown_srv=0.15, recs=(2, 3, 5), alias_chain=0.5)
    n_quick, n_thorough = 4500, 60000

    def gen_job(self, r, case):
        j = G.gen_job(r, case, "QueryRewrite", 0.2)
        j["Properties"] = [p for p in j["Properties"] if p["PropertyName"] not in ("QueryRewrite", "NameserverContact")]
        k = r.choice([("QueryRewrite",), ("NameserverContact",), ("QueryRewrite", "NameserverContact")])
        j["Properties"] += [G.gen_prop(r, n, case) for n in k]
        if r.random() < 0.1:
            j["Properties"].append(G.gen_prop(r, r.choice(k), case))
        r.shuffle(j["Properties"])
        return j

    def run(self, env, case):
        s = system_of(case)
        job = case["jobs"][0]
        ana, _ = analyse(s, job)
        exp = {"QueryRewrite": [], "NameserverContact": []}
        rewr = 0
        for ec, res, paths, ends in ana:
            rewr += sum(1 for n in res.list if n.tag() == "REWRITE")
            for p in job["Properties"]:
                if p["PropertyName"] in exp:
                    exp[p["PropertyName"]] += M.SIMPLE[p["PropertyName"]](res, paths, ends, p)
        r = self.execute(env, case)
        compare("Query Rewrite", exp["QueryRewrite"], entries(r, "Query Rewrite"))
        compare("Name Server Contact", exp["NameserverContact"], entries(r, "Name Server Contact"))
        return bool(exp["QueryRewrite"] or exp["NameserverContact"] or rewr), [n for n in exp if exp[n]] + self.features(ana)

    def interesting(self, case, ana):
        return any(n.tag() == "REWRITE" for a in ana for n in a[1].list)

    boring = 0.5


@has_exp
class C06(PathCheck):
    id, prop, reported = "C06", "RewriteBlackholing", "Rewrite Blackholing"
    rule = ("random systems rich in CNAME/DNAME chains to existing, empty, refused, unknown and non-existing names; non-trivial: "
            "an entry is expected or some execution contains a rewrite and does not end in NXDOMAIN")
    K = G.knobs(cname=0.4, dname=0.2, recs=(2, 3, 5, 7), target_known=0.6, alias_chain=0.5, deep=0.5)
    n_quick, n_thorough = 4500, 60000
    boring = 0.5

    def nontrivial(self, case, ana, exp):
        return bool(exp) or any(n.tag() == "REWRITE" for a in ana for n in a[1].list)


@has_exp
class C08(PathCheck):
    id, prop, reported = "C08", "DelegationConsistency", "Delegation Consistency"
    rule = ("random delegations with independent mutations of parent and child NS and glue sets on several servers; non-trivial: "
            "an entry is expected or a parent-child pair was compared and found equal")
    K = G.knobs(children=(1, 2, 2, 3), servers=(1, 2, 2, 3), unknown_srv=0.06, foreign_srv=0.4, lame=0.04, glue=0.7, glue6=0.35,
                mut=0.5, child_ns_same=0.5, recs=(0, 0, 1, 2), ttls=(0, 10, 300), big=0.12)
    n_quick, n_thorough = 4500, 60000
    boring = 0.45

    def gen_job(self, r, case):
        j = PathCheck.gen_job(self, r, case)
        if r.random() < 0.5:
            zs = [z["origin"] for z in case["zones"]]
            j["Domain"] = max(zs, key=lambda o: len(labels(o)))
        if r.random() < 0.35:
            j["Properties"].append({"PropertyName": "ResponseReturned", "Types": r.choice([["A"], ["A", "NS"], ["AAAA", "MX"]])})
        return j

    def nontrivial(self, case, ana, exp):
        return bool(exp) or any(a.tag() == "REF" and b.tag() == "ANS" and "NS" in (b.ans[0][1] or ()) for x in ana
                                for p in x[2] for a, b in zip(p, p[1:]))


@has_exp
class C09(PathCheck):
    id, prop, reported = "C09", "LameDelegation", "Lame Delegation"
    rule = ("random delegations to servers that lack the zone, are unknown, or host other zones; non-trivial: an entry is expected "
            "or an execution ends refused or at an unknown server")
    K = G.knobs(children=(1, 2, 2, 3), servers=(1, 2, 2, 3), lame=0.45, unknown_srv=0.06, top_srv=0.35, foreign_srv=0.6,
                cname=0.2, recs=(0, 1, 2, 3), apex_multi=0.4)
    n_quick, n_thorough = 4500, 60000
    boring = 0.8

    def nontrivial(self, case, ana, exp):
        return bool(exp) or any(n.tag() in ("REFUSED", "NSNOTFOUND") for a in ana for n in a[1].list)


class C07(ModelCheck):
    id, prop = "C07", "AllAliases"
    rule = ("random systems rich in alias chains and jobs listing 1-4 canonical names (mixed case); non-trivial: an alias is "
            "expected, or a canonical name is resolved without alias")
    K = G.knobs(cname=0.45, dname=0.15, recs=(3, 5, 7), target_known=0.85, alias_chain=0.7)
    n_quick, n_thorough = 4500, 60000
    boring = 0.5

    def expected(self, job, ana):
        al = {}
        for ec, res, paths, ends in ana:
            for p in job["Properties"]:
                if p["PropertyName"] == "AllAliases":
                    for c, q in M.p_aliases(res, paths, ends, p):
                        al.setdefault(c, set()).add(q)
        return al

    def interesting(self, case, ana):
        return bool(self.expected(case["jobs"][0], ana))

    def run(self, env, case):
        s = system_of(case)
        job = case["jobs"][0]
        ana, _ = analyse(s, job)
        exp = self.expected(job, ana)
        r = self.execute(env, case)
        es = entries(r, "All Aliases")
        if len(es) != (1 if exp else 0):
            raise Violation("%d alias entries, expected %d" % (len(es), 1 if exp else 0))
        if es:
            l = es[0]["Canonical Name and their Aliases"]
            got = {}
            for x in l:
                if x["Canonical Name"] in got:
                    raise Violation("canonical name %s listed twice" % x["Canonical Name"])
                if len(set(x["Aliases"])) != len(x["Aliases"]):
                    raise Violation("alias listed twice: %s" % x)
                got[x["Canonical Name"]] = set(x["Aliases"])
            if got != exp:
                raise Violation("aliases differ\n expected %s\n got %s" % (
                    {k: sorted(v) for k, v in exp.items()}, {k: sorted(v) for k, v in got.items()}))
        return bool(exp), ["aliases:%d" % min(3, len(exp))]


# ---- C10-C13 ---------------------------------------------------------------------------------------------------
class C10(ModelCheck):
    id, prop = "C10", "ResponseConsistency"
    rule = ("random systems with differing copies of zones and type lists; non-trivial: an execution set with two answering end "
            "nodes")
    K = G.knobs(servers=(1, 2, 2, 3), mut=0.5, mut_n=(1, 2, 3), cname=0.25, dname=0.06, recs=(2, 3, 5), lame=0.08, ttls=(0, 10, 300),
                unknown_srv=0.06)
    n_quick, n_thorough = 4500, 60000

    boring = 0.75

    def interesting(self, case, ana):
        return any(len([n for n in ends if n.tag() not in ("REFUSED", "NSNOTFOUND", None)]) > 1 for _, _, _, ends in ana)

    def tweak(self, r, case):
        if r.random() > 0.2:
            return
        # one name with another kind of data in each copy of its zone
        groups = {}
        for z in case["zones"]:
            groups.setdefault(z["origin"], []).append(z)
        groups = [g for g in groups.values() if len(g) > 1]
        if not groups:
            return
        g = r.choice(groups)
        o = g[0]["origin"]
        n = G.child(r.choice("abvw*"), o)
        far = r.choice([G.child("gone", o), G.child("a", "u."), G.child("here", o), o, r.choice(g[0]["recs"])[0]])
        kinds = [("CNAME", far), ("CNAME", G.child("gone", o)), None, None, ("A", "1.0.0.1"), ("TXT", '"v1"'), ("DNAME", far), "ent"]
        pair = r.random() < 0.15
        w = "v" * r.choice([3, 31, 64, 200])
        kinds += [("TXT", '"%s%d"' % (w, i)) for i in (1, 2)] + [("NS", G.child(w[:60] + str(i), o)) for i in (1, 2)]
        kinds = r.sample(kinds, r.choice([2, 2, 3])) if r.random() < 0.8 else kinds[-4:-2]
        if pair and far != ".":
            # both lead to the same name, with and without the type CNAME
            kinds = [("DNAME", far), "below"]
            if r.random() < 0.6:
                far = kinds[0][1] if far.endswith("u.") else r.choice(["u.", "a.u.", "gone.u."])
                kinds[0] = ("DNAME", far)
        both = r.sample(kinds, len(kinds))
        for z in g:
            z["recs"] = [x for x in z["recs"] if x[1] == "SOA" or not under_(n, x[0])]
            k = both.pop() if pair and both else r.choice(kinds)
            if k == "below":
                z["recs"].append([G.child("e", n), "CNAME", 300, G.child("e", far)])
            elif k == "ent":
                z["recs"].append([G.child("e", n), "A", 300, "1.0.0.3"])
            elif k:
                if k[0] == "DNAME" and k[1] == ".":
                    continue
                z["recs"].append([n, k[0], 300, k[1]])
            if r.random() < 0.5:
                z["recs"].append([G.child("here", o), "A", 300, "1.0.0.2"])
            z["recs"] = G.sanitize(z["recs"], o)
        if pair:
            n = G.child("e", n)
        case["aim"] = n if not n.startswith("*") and ".*." not in n else G.child("q", n.split("*.", 1)[1])

    def gen_job(self, r, case):
        j = ModelCheck.gen_job(self, r, case)
        j["SubDomain"] = r.random() < 0.5
        aim = case.pop("aim", None)
        if aim and r.random() < 0.8:
            j["Domain"] = aim
            for p in j["Properties"]:
                if p["PropertyName"] == "ResponseConsistency" and r.random() < 0.7:
                    p["Types"] = r.choice([["CNAME"], ["CNAME", "A"], ["A", "CNAME", "TXT"], ["NS", "CNAME"]])
            return j
        if r.random() < 0.6:
            own = [x[0] for z in case["zones"] for x in z["recs"] if not x[0].startswith("*")]
            j["Domain"] = r.choice(own)
        return j

    def run(self, env, case):
        s = system_of(case)
        job = case["jobs"][0]
        ana, _ = analyse(s, job)
        r = self.execute(env, case)
        got = entries(r, "Response Consistency")
        allowed, need, multi = set(), [], False
        for ec, res, paths, ends in ana:
            if len([n for n in ends if n.tag() not in ("REFUSED", "NSNOTFOUND", None)]) > 1:
                multi = True
            for p in job["Properties"]:
                if p["PropertyName"] == "ResponseConsistency":
                    st, qs = M.consistency_state(res, paths, ends, p)
                    if st == "diff":
                        need.append(qs)
                    if st != "same":
                        allowed |= qs
        qs = [e["Query"] for e in got]
        if len(set(qs)) != len(qs):
            raise Violation("repeated entry")
        for q in qs:
            if q not in allowed:
                raise Violation("inconsistency reported for %s but its executions agree" % q)
        for n in need:
            if not n & set(qs):
                raise Violation("executions of %s disagree but nothing is reported (reported: %s)" % (sorted(n), qs))
        return multi, ["diff"] if need else (["multi-same"] if multi else ["single"])


class NodeCheck(PathCheck):
    def canon(self, e):
        e = json.loads(json.dumps(e))
        if "Mismatches" in e:
            e["Mismatches"] = sorted(map(jkey, e["Mismatches"]))
        return e


@has_exp
class C11(NodeCheck):
    id, prop, reported = "C11", "ResponseReturned", "ResponseReturned"
    rule = ("random systems and type lists; non-trivial: an entry is expected or a requested type is answered at some end node")
    K = G.knobs(recs=(2, 3, 5, 7), cname=0.2, wild=0.2, mut=0.45)
    n_quick, n_thorough = 4500, 60000
    boring = 0.3

    def tweak(self, r, case):
        C10.tweak(self, r, case)

    def gen_job(self, r, case):
        aim = case.pop("aim", None)
        j = PathCheck.gen_job(self, r, case)
        if aim and r.random() < 0.7:
            j["Domain"] = aim
            for p in j["Properties"]:
                if p["PropertyName"] == "ResponseReturned" and r.random() < 0.7:
                    p["Types"] = r.choice([["CNAME", "MX"], ["CNAME", "A"], ["A", "CNAME", "TXT"], ["NS", "CNAME"]])
        return j

    def nontrivial(self, case, ana, exp):
        return bool(exp) or any(n.tag() == "ANS" and n.ans[0][2] for a in ana for n in a[3])


@has_exp
class C12(NodeCheck):
    id, prop, reported = "C12", "ResponseValue", "Response Value"
    rule = ("random systems and expected value sets drawn from the data (exact, superset, subset, other); non-trivial: an entry is "
            "expected or a matching answer was accepted")
    K = G.knobs(recs=(2, 3, 5, 7), cname=0.25, wild=0.15, mut=0.45, servers=(1, 2, 2, 3))
    n_quick, n_thorough = 4500, 60000
    boring = 0.3

    def gen_job(self, r, case):
        j = PathCheck.gen_job(self, r, case)
        if r.random() < 0.6:
            t = next(p for p in j["Properties"] if p["PropertyName"] == "ResponseValue")["Types"]
            own = [x[0] for z in case["zones"] for x in z["recs"] if x[1] in t and not x[0].startswith("*")]
            if own:
                j["Domain"] = r.choice(own)
                j["SubDomain"] = r.random() < 0.3
        return j

    def nontrivial(self, case, ana, exp):
        return bool(exp) or any(n.tag() == "ANS" and n.ans[0][2] for a in ana for n in a[3])


class C13(ModelCheck):
    id, prop = "C13", "ZeroTTL"
    rule = ("random systems whose TTLs are 0, 10 or 300, written explicitly, through $TTL or left to the last stated TTL; "
            "non-trivial: an entry is expected or a zero-TTL record of another type is returned")
    K = G.knobs(ttls=(0, 0, 0, 10, 300, 300, 256, 65536, 2147483647), recs=(2, 3, 5), cname=0.2, wild=0.15)
    n_quick, n_thorough = 4500, 60000
    boring = 0.4

    def gen(self, r, i):
        case = ModelCheck.gen(self, r, i)
        if case is not None:
            case["present"] = r.choice(["explicit", "ttl", "last", "mixed"])
            case["pseed"] = r.randint(0, 1 << 30)
        return case

    def interesting(self, case, ana):
        return any(x[2] == 0 for a in ana for n in a[3] if n.ans for x in n.ans[0][2])

    def files(self, case):
        """Zone texts with the same effective TTLs in different presentations."""
        out = {}
        r = random.Random(case.get("pseed", 0))
        for z in case["zones"]:
            mode = case.get("present", "explicit")
            if mode == "mixed":
                mode = r.choice(["explicit", "ttl", "last", "multi"])
            text_, cur, fixed = "", None, False
            for n, t, ttl, d in z["recs"]:
                tt = "%d " % ttl
                if mode in ("ttl", "multi"):
                    if not fixed or (mode == "multi" and r.random() < 0.3):
                        cur = r.choice([0, ttl, 7200, 65536])
                        text_ += "$TTL %d\n" % cur
                        fixed = True
                    if cur == ttl and r.random() < 0.8:
                        tt = ""
                elif mode == "last":
                    if cur is None and ttl == 0 and r.random() < 0.5:
                        tt = ""          # nothing stated before: 0
                    elif cur == ttl and r.random() < 0.8:
                        tt = ""
                    if tt:
                        cur = ttl
                cl = r.choice(["IN ", "", "in "])
                text_ += n + " " + (tt + cl if r.random() < 0.7 else cl + tt) + t + " " + d + "\n"
            out[z["file"]] = text_
        return out

    def run(self, env, case):
        s = system_of(case)
        job = case["jobs"][0]
        ana, _ = analyse(s, job)
        c = G.render(case, jobs=case["jobs"])
        c["files"] = self.files(case)
        r = env.run(c)
        got = entries(r, "Zero TTL")
        need, ok = [], set()
        for ec, res, paths, ends in ana:
            for p in job["Properties"]:
                if p["PropertyName"] == "ZeroTTL":
                    found, qs = M.zerottl_state(res, paths, ends, p)
                    for f in found:
                        need.append((f, qs))
                        ok |= {(q,) + f for q in qs}
        have = {(e["Query"], e["Violation"]["Nameserver"], e["Violation"]["Record"]) for e in got}
        if len(have) != len(got):
            raise Violation("repeated or malformed Zero TTL entry")
        for h in have:
            if h not in ok:
                raise Violation("unexpected Zero TTL entry %s" % (h,))
        for f, qs in need:
            if not any((q,) + f in have for q in qs):
                raise Violation("missing Zero TTL entry %s for %s" % (f, sorted(qs)))
        return self.interesting(case, ana), ["reported" if need else "silent", case.get("present", "")]


# ---- C14 -------------------------------------------------------------------------------------------------------
class C14(PathCheck):
    id = "C14"
    rule = ("DNAMEs between short and long names (boundary at 255 octets), self-referential and mutual, with length and recursion "
            "properties; non-trivial: an entry is expected or a DNAME rewrite happens")
    K = G.knobs(cname=0.15, dname=0.45, recs=(1, 2, 3, 4), self_ref=0.3, children=(0, 0, 1), apex_multi=0.15)
    n_quick, n_thorough = 2500, 50000
    boring = 0.6
    budget = Budget(ecs=260, paths=4000)

    def tweak(self, r, case):
        if r.random() < 0.15:
            self.chain(r, case)
        if r.random() < 0.6:
            return
        # names near the limit: pad a DNAME target or an owner to a chosen total length
        goal = r.choice([253, 254, 255, 256])
        for z in case["zones"]:
            dn = [x for x in z["recs"] if x[1] == "DNAME"]
            if not dn or r.random() < 0.2:
                continue
            x = r.choice(dn)
            if labels(x[0])[-1:] == ("*",) or labels(x[0]) == labels(z["origin"]) and r.random() < 0.5:
                continue
            o = labels(x[3])
            pad, left = [], r.choice([200, 240, 250, 252, goal - 2 - r.randint(0, 3)]) - M.nlen(o)
            while left > 1:
                k = min(63, left - 1)
                if left - k - 1 == 1:
                    k -= 1
                pad.append("l" * k)
                left -= k + 1
            t = o + tuple(pad)
            if M.valid_name(t):
                x[3] = text(t)
                if r.random() < 0.8:
                    # a name below the owner whose rewrite lands on the boundary
                    room = goal - M.nlen(t)
                    if room >= 2:
                        q = labels(x[0]) + ("q" * min(63, room - 1),)
                        if M.valid_name(q):
                            z["recs"].append([text(q), "A", 300, "1.0.0.1"])
            z["recs"] = G.sanitize(z["recs"], z["origin"])

    def chain(self, r, case):
        """The same DNAME several times on one execution, with names that become shorter and longer, joined by CNAMEs."""
        cand = [(z, x) for z in case["zones"] for x in z["recs"] if x[1] == "DNAME"
                and labels(x[3])[:len(labels(z["origin"]))] == labels(z["origin"])
                and labels(x[3])[:len(labels(x[0]))] != labels(x[0]) and labels(x[0]) and labels(x[0])[-1] != "*"
                and len(labels(x[3])) > len(labels(z["origin"]))]
        if not cand:
            return
        z, x = r.choice(cand)
        o, t = labels(x[0]), labels(x[3])
        subs = [tuple("%s%d" % (r.choice("abc"), i) for _ in range(r.randint(1, 5))) for i in range(r.randint(2, 5))]
        if r.random() < 0.4:
            subs.sort(key=len, reverse=True)
        for a, b in zip(subs, subs[1:]):
            if M.valid_name(t + a) and M.valid_name(o + b):
                z["recs"].append([text(t + a), "CNAME", 300, text(o + b)])
        z["recs"] = G.sanitize(z["recs"], z["origin"])
        case["aim"] = text(o if r.random() < 0.6 else o + subs[0])

    def gen_job(self, r, case):
        ps = [{"PropertyName": n} for n in ("DNAMESubstitutionCheck", "InfiniteDNameRec") if r.random() < 0.8] \
            or [{"PropertyName": "InfiniteDNameRec"}]
        j = {"Domain": G.gen_domain(r, case), "SubDomain": r.random() < 0.8, "Properties": ps}
        if r.random() < 0.5:
            own = [x[0] for z in case["zones"] for x in z["recs"] if x[1] == "DNAME"]
            if own:
                j["Domain"] = r.choice(own)
        aim = case.pop("aim", None)
        if aim and r.random() < 0.85:
            j["Domain"] = aim
        if r.random() < 0.25:
            ps.append(G.gen_prop(r, r.choice(["ResponseReturned", "Hops", "Rewrites"]), case))
        return j

    def interesting(self, case, ana):
        return any(n.tag() == "REWRITE" and n.ans[0][2][0][1] == "DNAME" for a in ana for n in a[1].list)

    def run(self, env, case):
        s = system_of(case)
        job = case["jobs"][0]
        ana, _ = analyse(s, job, self.budget)
        r = self.execute(env, case)
        have = {p["PropertyName"] for p in job["Properties"]}
        exp_l, exp_i = [], []
        for ec, res, paths, ends in ana:
            if "DNAMESubstitutionCheck" in have:
                exp_l += M.p_dnamelen(res, paths, ends, None)
            if "InfiniteDNameRec" in have:
                exp_i += M.p_infdname(res, paths, ends, None)
        compare("DNAME Substitution exceeds length", exp_l, entries(r, "DNAME Substitution exceeds length"))
        got = []
        for e in entries(r, "Infinite DName Recursion"):
            e = dict(e)
            e["RRsUsed"] = sorted(e.get("RRsUsed", {}).values())
            got.append(e)
        compare("Infinite DName Recursion", {jkey(x): x for x in exp_i}.values(), {jkey(x): x for x in got}.values())
        feats = (["length"] if exp_l else []) + (["recursion"] if exp_i else [])
        if any(M.nlen(n.name) == 254 for a in ana for n in a[1].list):
            feats.append("exactly-255")
        return bool(exp_l or exp_i) or self.interesting(case, ana), feats + self.features(ana)


# ---- C15 -------------------------------------------------------------------------------------------------------
def canon_struct(e):
    e = json.loads(json.dumps(e))
    pairs = []
    for p in e.get("Inconsistent Pairs", []):
        q = {}
        for k, v in p.items():
            q[k] = sorted(v) if isinstance(v, list) else v
        # the two sides of a parent-parent or child-child pair have no order
        alt = None
        for a, b in (("parent-a", "parent-b"), ("child-a", "child-b")):
            if a + " NS" in q:
                alt = {k.replace(a, "#").replace(b, a).replace("#", b): v for k, v in q.items()}
        s = jkey(q)
        pairs.append(min(s, jkey(alt)) if alt else s)
    e["Inconsistent Pairs"] = sorted(pairs)
    return e


class C15(ModelCheck):
    id, prop = "C15", "StructuralDelegationConsistency"
    rule = ("several parent and child copies of delegated zones with mutated NS and glue sets; non-trivial: an entry is expected or "
            "a name with NS records is held by two zone copies that agree")
    K = G.knobs(children=(1, 2, 3, 3), servers=(1, 2, 2, 3), mut=0.45, glue=0.7, glue6=0.3, recs=(0, 1, 2), cname=0.08, dname=0.05,
                apex_root=0.2, lame=0.05, foreign_srv=0.45, nsowner=0.2, unknown_srv=0.05, ttls=(0, 300, 300))
    n_quick, n_thorough = 4500, 60000

    def gen_job(self, r, case):
        j = G.gen_job(r, case, "StructuralDelegationConsistency", 0.25, 1.0)
        if r.random() < 0.12:
            j["Properties"] = [{"PropertyName": "Hops", "Value": 5}] if r.random() < 0.5 else j["Properties"]
        if r.random() < 0.4:
            j["Domain"] = min((z["origin"] for z in case["zones"]), key=lambda o: len(labels(o)))
        return j

    def gen(self, r, i):
        case = ModelCheck.gen(self, r, i)
        if case is None:
            return None
        s = system_of(case)
        lab = labels(case["jobs"][0]["Domain"].lower())
        m, nodes = s.enclosers(lab)
        if m == len(lab) and nodes != [lab]:
            return None
        return case

    def run(self, env, case):
        s = system_of(case)
        job = case["jobs"][0]
        lab = labels(job["Domain"].lower())
        m, nodes = s.enclosers(lab)
        if m == len(lab) and nodes != [lab]:
            raise Skip
        ana, structural = analyse(s, job)
        exp, held = [], 0
        for node, display in structural:
            e = M.structural_entry(s, node, display)
            if e:
                exp.append(canon_struct(e))
            h = s.holders.get(node, [])
            if sum(1 for z in h if "NS" in z.types[node]) > 1:
                held += 1
        r = self.execute(env, case)
        compare("Structural Delegation Consistency", exp,
                distinct("Structural Delegation Consistency", entries(r, "Structural Delegation Consistency"), canon_struct))
        return bool(exp) or held > 0, ["inconsistent:%d" % min(3, len(exp)), "pairs:%d" % min(6, sum(
            len(e["Inconsistent Pairs"]) for e in exp))]


# ---- C16 -------------------------------------------------------------------------------------------------------
TAGS = ["ANS", "REWRITE", "REF", "NX", "REFUSED", "NSNOTFOUND", "YX"]


class C16(ModelCheck):
    id = "C16"
    rule = ("systems biased to CNAME/DNAME loops, glueless mutual delegations and self-delegations; non-trivial: a cyclic query, or "
            "a query with side queries or rewrites that is not cyclic")
    K = G.knobs(glue=0.3, foreign_srv=0.55, cname=0.4, dname=0.12, self_ref=0.2, children=(1, 2, 2, 3), alias_chain=0.8,
                target_known=0.9, recs=(1, 2, 3, 5), apex_multi=0.4, big=0.12, loop=0.5)
    n_quick, n_thorough = 4500, 60000
    boring = 0.55

    def gen_job(self, r, case):
        j = G.gen_job(r, case, r.choice(["Hops", "Rewrites", "ResponseReturned", "LameDelegation", "RewriteBlackholing"]), 0.4)
        if r.random() < 0.03:
            j["Properties"] = []
        return j

    def valid(self, case):
        return valid_case(case, True)

    def interesting(self, case, ana):
        return any(res.cyclic() for _, res, _, _ in ana)

    def run(self, env, case):
        s = system_of(case)
        job = case["jobs"][0]
        ana, _ = analyse(s, job)
        cyc = [res for _, res, _, _ in ana if res.cyclic()]
        r = self.execute(env, case)
        got = entries(r, "Cyclic Zone Dependency")
        if len({jkey(e) for e in got}) != len(got):
            raise Violation("repeated loop")
        if len(got) > len(cyc):
            raise Violation("%d loops reported, %d cyclic queries" % (len(got), len(cyc)))
        if cyc and not got:
            raise Violation("cyclic dependency of %s not reported" % cyc[0].root.q())
        graphs = []
        for res in cyc:
            by = {}
            for n in res.list:
                by.setdefault((n.ns, n.q(), TAGS.index(n.tag()) if n.tag() else None), []).append(n)
            graphs.append((res, by))
        matched = [False] * len(got)
        for res, by in graphs:
            ok = False
            for i, e in enumerate(got):
                if self.is_cycle(e, res, by):
                    ok = True
                    matched[i] = True
            if not ok:
                raise Violation("no reported loop is a cycle of the resolution of %s; reported: %s" % (res.root.q(), jkey(got)[:1500]))
        for i, e in enumerate(got):
            if not matched[i]:
                raise Violation("reported loop is not a cycle of any resolution: %s" % jkey(e)[:1500])
        # properties of the other executions are still reported
        for p in job["Properties"]:
            n = p["PropertyName"]
            if n in ("Hops", "Rewrites", "LameDelegation", "RewriteBlackholing"):
                exp = [x for _, res, paths, ends in ana for q in job["Properties"] if q["PropertyName"] == n
                       for x in M.SIMPLE[n](res, paths, ends, q)]
                compare(n, exp, entries(r, {"LameDelegation": "Lame Delegation", "RewriteBlackholing": "Rewrite Blackholing"}.get(n, n)))
        side = any(sd is not None for _, res, _, _ in ana for n in res.list for _, sd in n.out)
        rew = any(n.tag() == "REWRITE" for _, res, _, _ in ana for n in res.list)
        f = ["cyclic" if cyc else "acyclic"]
        if side:
            f.append("side-query")
        for e in got:
            f.append("loop-length:%d" % min(6, len(e["Loop"])))
        return bool(cyc or side or rew), sorted(set(f))

    @staticmethod
    def is_cycle(e, res, by):
        steps = [(x["NS"], x["Query"], x.get("AnswerTag")) for x in e.get("Loop") or []]
        if not steps:
            return False
        cands = [by.get(st) for st in steps]
        if any(not c for c in cands):
            return False
        for first in cands[0]:
            cur = {first}
            for c in cands[1:]:
                cur = {t for n in cur for t in res.deps(n) if t in c}
            if any(first in res.deps(n) for n in cur):
                return True
        return False


CHECKS = {c.id: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16)}
