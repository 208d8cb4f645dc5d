"""C20-C24: relations between runs, schedules, large fan-out and the built program."""
import copy, json, os, random, re, shutil, subprocess, tempfile
from collections import Counter

from . import gen as G
from . import model as M
from . import present as P
from .canon import canon_report
from .checks_model import Budget, analyse, compare, entries, jkey, system_of, valid_case, canon_struct
from .checks_input import extra_data, want_dump, EXTRA
from .model import labels, text, under
from .proto import out_json
from .run import Check, Skip, Violation


def through_dname(s, job):
    lab = labels(job["Domain"].lower())
    m, nodes = s.enclosers(lab)
    return m == len(lab) and nodes != [lab]


def wants_struct(job):
    return job is not None and any(p["PropertyName"] == "StructuralDelegationConsistency" for p in job["Properties"])


DEFAULT = {"Domain": ".", "SubDomain": True, "Properties": [
    {"PropertyName": "Hops", "Value": 2}, {"PropertyName": "Rewrites", "Value": 1}, {"PropertyName": "DelegationConsistency"},
    {"PropertyName": "LameDelegation"}, {"PropertyName": "QueryRewrite", "Value": ["."]}, {"PropertyName": "RewriteBlackholing"}]}


def jobs_small(case, jobs, budget=None):
    s = system_of(case)
    try:
        for j in jobs:
            analyse(s, DEFAULT if j is None else j, budget)
    except Skip:
        return False
    return True


def diff(a, b, na, nb, what):
    if a != b:
        sa, sb = set(a), set(b)
        raise Violation("%s\n only %s: %s\n only %s: %s" % (what, na, "\n   ".join(sorted(sa - sb)[:3]), nb, "\n   ".join(sorted(sb - sa)[:3])))


# ---- C20 ----------------------------------------------------------------------------------------------------
class C20(Check):
    id = "C20"
    rule = ("sequences of 2-7 jobs (drawn with repetition from 2-4 different jobs of any properties, and the default job) run in one "
            "process, the report taken after every job, against the union of the reports of each job run alone in a fresh process, and "
            "the counts of examined queries; non-trivial: at least two different jobs and a job with findings")
    n_quick, n_thorough = 2500, 40000
    K = G.knobs(children=(0, 1, 1, 2), ttls=(0, 300))

    def gen(self, r, i):
        case = G.gen_system(r, self.K)
        case.pop("_names")
        if not valid_case(case):
            return None
        s = system_of(case)
        pool = []
        for _ in range(r.choice([2, 2, 3, 4])):
            if r.random() < 0.12:
                j = None
            else:
                j = G.gen_job(r, case, r.choice(G.ALLPROPS), 0.5)
                if pool and pool[0] and r.random() < 0.35:
                    # a near copy of another job: leaks of single fields
                    j = copy.deepcopy(pool[0])
                    x = r.random()
                    if x < 0.3:
                        j["SubDomain"] = not j["SubDomain"]
                    elif x < 0.5:
                        j["Domain"] = G.gen_domain(r, case)
                    elif x < 0.6 or not j["Properties"]:
                        j["Properties"] = []
                    else:
                        p = r.choice(j["Properties"])
                        p2 = G.gen_prop(r, p["PropertyName"], case)
                        p.clear()
                        p.update(p2)
                if r.random() < 0.04:
                    j["Properties"].append({"PropertyName": r.choice(["QueryRewrite", "NameserverContact", "AllAliases"]), "Value": []})
                if r.random() < 0.04:
                    j["Properties"] = []
                if wants_struct(j) and through_dname(s, j):
                    continue
            pool.append(j)
        if len(pool) < 2 or not jobs_small(case, pool, Budget(ecs=100, paths=1500)):
            return None
        case["pool"] = pool
        case["seq"] = [r.randrange(len(pool)) for _ in range(r.randint(2, 7))]
        return case

    def valid(self, case):
        return (len(case["seq"]) >= 1 and all(0 <= k < len(case["pool"]) for k in case["seq"]) and
                valid_case({k: v for k, v in case.items() if k in ("zones", "tops")}) and
                jobs_small(case, case["pool"]))

    def droppable(self, path):
        return path[-1] in ("zones", "recs", "tops", "seq", "Properties", "Value", "Types")

    def run(self, env, case):
        alone, ecs = {}, {}
        for k in sorted(set(case["seq"])):
            r = env.run(G.render(case, jobs=[case["pool"][k]]))
            alone[k], ecs[k] = set(canon_report(r["out"], "full")), r["jobs"][0]["ec"]
        r = env.run(G.render(case, jobs=[case["pool"][k] for k in case["seq"]], cumulative=True))
        have = set()
        for n, (k, j) in enumerate(zip(case["seq"], r["jobs"])):
            have |= alone[k]
            out = out_json(j["out"])
            got = canon_report(out, "full")
            if len({jkey(e) for e in out}) != len(out):
                raise Violation("the report after job %d repeats an entry" % n)
            diff(sorted(have), sorted(got), "when run alone", "in the sequence",
                 "report after job %d (%s) of the sequence differs from the union of the jobs run alone" % (n, json.dumps(case["pool"][k])))
            if j["ec"] != ecs[k]:
                raise Violation("job %d examines %d queries in the sequence, %d alone" % (n, j["ec"], ecs[k]))
        return len(set(case["seq"])) > 1 and bool(have), ["jobs:%d" % len(case["seq"])] + (
            ["default job"] if any(case["pool"][k] is None for k in case["seq"]) else []) + (
            ["several findings"] if len(have) > 3 else [])

    def sample(self, case):
        return dict(G.render(case), jobs=[case["pool"][k] for k in case["seq"]])


# ---- C21 ----------------------------------------------------------------------------------------------------
class C21(Check):
    id = "C21"
    programs = [("fast", "worker"), ("sched", "worker"), ("tsan", "worker")]
    rule = ("systems with 1-3 jobs of any properties, each run under 10-14 seeded schedules of a controlled scheduler (random, bursts, "
            "priorities with change points, one thread held back; a scheduling point at every queue and atomic operation, thread start, join "
            "and lock; the second half of the step budget is fair), with real threads twice, and partly under the thread sanitizer; the "
            "report bytes and the number of examined queries are compared with those of the first run; non-trivial: at least three "
            "queries examined and a finding")
    n_quick, n_thorough = 1500, 20000
    K = G.knobs(children=(0, 1, 1, 2, 2), ttls=(0, 300))

    def gen(self, r, i):
        case = G.gen_system(r, self.K)
        case.pop("_names")
        if not valid_case(case):
            return None
        twice = None
        if r.random() < 0.1:
            # a domain that exists below a DNAME, and again through the DNAME
            z = r.choice(case["zones"])
            o = z["origin"]
            below = [n for n in {x[0] for x in z["recs"]} if "*" not in n and len(labels(n)) > len(labels(o))]
            if below:
                n = r.choice(sorted(below))
                l = labels(n)
                k = r.randint(len(labels(o)), len(l) - 1)
                own = text(labels(o) + ("dx",))
                twice = text(labels(own) + l[k:])
                if k > len(labels(o)):
                    recs = copy.deepcopy(z["recs"])
                    recs.append([own, "DNAME", 300, text(l[:k])])
                    for c in ("", "h.", "i.j.")[:r.choice([1, 2, 3])]:
                        recs.append([c + twice, "A", 300, "1.0.0.7"])
                    z["recs"] = G.sanitize(recs, o)
                else:
                    twice = None
        if not valid_case(case):
            return None
        s = system_of(case)
        jobs = []
        if twice:
            jobs.append({"Domain": twice, "SubDomain": True, "Properties": [
                {"PropertyName": "Hops", "Value": 0}, {"PropertyName": "Rewrites", "Value": 0}, {"PropertyName": "ResponseReturned", "Types": ["A", "NS"]}]})
        for _ in range(r.choice([1, 1, 2, 3])):
            j = None if r.random() < 0.15 else G.gen_job(r, case, r.choice(G.ALLPROPS), 0.6)
            if j and r.random() < 0.5:
                # many findings: limits of zero, several aliases
                j["Properties"] += [{"PropertyName": "Hops", "Value": 0}, {"PropertyName": "Rewrites", "Value": 0}]
            if j and r.random() < 0.3:
                j["Properties"] += [{"PropertyName": "AllAliases", "Value": r.sample(case["tops"] + [z["origin"] for z in case["zones"]], 1)}]
            if wants_struct(j) and through_dname(s, j):
                continue
            jobs.append(j)
        if not jobs or not jobs_small(case, jobs, Budget(ecs=80, paths=600)):
            return None
        case["jobs"] = jobs
        case["scheds"] = [{"seed": r.randint(1, 1 << 40), "mode": r.choice([0, 1, 2, 2, 3, 3])} for _ in range(r.randint(10, 14))]
        case["tsan"] = r.random() < 0.25
        return case

    def valid(self, case):
        return bool(case["jobs"]) and valid_case(dict(case, jobs=[j for j in case["jobs"] if j])) and jobs_small(case, case["jobs"])

    def droppable(self, path):
        return path[-1] in ("zones", "recs", "tops", "jobs", "Properties", "Value", "Types", "scheds")

    def run(self, env, case):
        c = G.render(case, jobs=case["jobs"])
        base = env.run(c)
        ec = [j["ec"] for j in base["jobs"]]
        feats = ["ecs:%s" % ("0-2" if sum(ec) < 3 else "3-20" if sum(ec) <= 20 else "21+")]

        def same(x, what):
            if [j["ec"] for j in x["jobs"]] != ec:
                raise Violation("the number of examined queries is %s, %s under %s" % (ec, [j["ec"] for j in x["jobs"]], what))
            if x["out"] != base["out"]:
                diff(canon_report(base["out"], "full", concat=True), canon_report(x["out"], "full", concat=True), "first run", what,
                     "the report differs under " + what)
                raise Violation("the bytes of the report differ under %s:\n%s\n%s" % (what, base["out"][:1500], x["out"][:1500]))

        for k in range(2):
            same(env.run(c), "another run")
        for sc in case["scheds"]:
            r = env.raw(dict(c, sched=dict(sc, max_steps=400000), timeout_ms=120000), "sched")
            if r["status"] == "exit" and r.get("code") == 78:
                raise Skip
            what = "schedule %s" % json.dumps(sc)
            if r["status"] != "ok" or "exception" in r["res"]:
                raise Violation("the run does not end normally under %s: %s %s %s" % (
                    what, r["status"], r.get("code", ""), r.get("err", "")[-1200:] or r.get("res", {}).get("exception")))
            same(r["res"], what)
            feats.append("mode:%d" % sc["mode"])
        if case["tsan"]:
            r = env.raw(dict(c, timeout_ms=120000), "tsan")
            if "ThreadSanitizer" in r.get("err", "") or r["status"] != "ok":
                if "unexpected memory mapping" in r.get("err", "") or "failed to allocate" in r.get("err", ""):
                    raise Skip
                raise Violation("thread sanitizer: %s %s %s" % (r["status"], r.get("code", ""), r.get("err", "")[:3500]))
            same(r["res"], "the race detector")
            feats.append("tsan")
        return sum(ec) >= 3 and "Property" in base["out"], sorted(set(feats))

    def sample(self, case):
        return dict(G.render(case), jobs=case["jobs"], schedules=case["scheds"])


# ---- C22 ----------------------------------------------------------------------------------------------------
KINDS = ["records", "zonefiles", "tops", "props", "values", "case", "unreach", "copy", "files", "rename"]


def map_labels(case, f):
    """Applies f to every label of every name of a case (not to '*')."""
    def name(n):
        return text(tuple(l if l == "*" else f(l) for l in labels(n)))
    c = copy.deepcopy(case)
    c["tops"] = [name(t) for t in c["tops"]]
    for z in c["zones"]:
        z["ns"], z["origin"] = name(z["ns"]), name(z["origin"])
        for rec in z["recs"]:
            rec[0] = name(rec[0])
            if rec[1] in P.NAME_TYPES:
                ts = P.tokens(rec[3])
                rec[3] = " ".join(ts[:-1] + [name(ts[-1])])
            elif rec[1] == "SOA":
                ts = P.tokens(rec[3])
                rec[3] = " ".join([name(ts[0]), name(ts[1])] + ts[2:])
    for j in c["jobs"]:
        j["Domain"] = name(j["Domain"].lower())
        for p in j["Properties"]:
            if p["PropertyName"] in ("QueryRewrite", "NameserverContact", "AllAliases"):
                p["Value"] = [name(v.lower()) for v in p["Value"]]
            elif p["PropertyName"] == "ResponseValue":
                vs = []
                for v in p["Value"]:
                    ts = P.tokens(v.lower())
                    vs.append(" ".join(name(t) if t.endswith(".") else t for t in ts))
                p["Value"] = vs
    return c


def all_labels(case):
    s = set()
    map_labels(case, lambda l: s.add(l) or l)
    return sorted(s)


class C22(Check):
    id = "C22"
    rule = ("systems with 1-3 jobs of any properties and 1-4 meaning-preserving changes out of: order of records, zone files, top "
            "servers, properties, values and types; letter case of all names, types and job fields; added unreachable zone files (new domain, or a copy "
            "of an existing zone on a server nobody refers to); other file names; consistent renaming of all labels; the canonical reports "
            "and query counts are compared; non-trivial: the report has findings and the change alters the input")
    n_quick, n_thorough = 5000, 60000
    K = G.knobs(children=(0, 1, 1, 2, 2), ttls=(0, 300))

    def gen(self, r, i):
        case = G.gen_system(r, self.K)
        case.pop("_names")
        if not valid_case(case):
            return None
        s = system_of(case)
        jobs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            j = G.gen_job(r, case, r.choice(G.ALLPROPS), 0.6)
            if wants_struct(j) and through_dname(s, j):
                continue
            jobs.append(j)
        if not jobs or not jobs_small(case, jobs):
            return None
        case["jobs"] = jobs
        case["kinds"] = sorted(set(r.choice(KINDS) for _ in range(r.choice([1, 1, 2, 3, 4]))))
        case["seed"] = r.randint(0, 1 << 30)
        return case

    def valid(self, case):
        return bool(case["kinds"]) and bool(case["jobs"]) and valid_case(case) and jobs_small(case, case["jobs"])

    def droppable(self, path):
        return path[-1] in ("zones", "recs", "tops", "jobs", "Properties", "Value", "Types", "kinds")

    def change(self, case):
        """(base input, changed input, label map from changed names back to base names or None)."""
        r = random.Random(case["seed"])
        a = {k: copy.deepcopy(case[k]) for k in ("zones", "tops", "jobs")}
        kinds = case["kinds"]
        back = None
        b = copy.deepcopy(a)
        if "rename" in kinds:
            ls = all_labels(a)
            if len(ls) > 90:
                raise Skip
            # both sides use labels that occur nowhere else; lengths stay the same on both sides
            ids = list(range(len(ls)))
            perm = ids[:]
            r.shuffle(perm)
            pad = {l: max(0, len(l) - 3) for l in ls}
            m1 = {l: "k%02d" % k + "q" * pad[l] for l, k in zip(ls, ids)}
            m2 = {l: "z%02d" % k + "w" * pad[l] for l, k in zip(ls, perm)}
            b = map_labels(a, lambda l: m2[l])
            a = map_labels(a, lambda l: m1[l])
            back = {m2[l]: m1[l] for l in ls}
        if "unreach" in kinds:
            for k in range(r.choice([1, 1, 2])):
                known = [z["ns"] for z in b["zones"]]
                o = r.choice(["zz%d." % k, "y.zz%d." % k])
                ns = r.choice(known) if r.random() < 0.6 else "ns.zz9."
                recs = [[o, "SOA", 300, "ns.zz9. h.zz9. 1 2 3 4 5"], [o, "NS", 300, "ns.zz9."]]
                for _ in range(r.choice([0, 1, 3])):
                    recs.append([r.choice(["a", "b", "*", "w.a"]) + "." + o, r.choice(["A", "CNAME", "NS", "DNAME"]), 0, ""])
                    if recs[-1][1] == "A":
                        recs[-1][3] = "9.9.9.9"
                    else:
                        recs[-1][3] = r.choice([z["origin"] for z in a["zones"]] + [o, "x.zz7."])
                    if recs[-1][1] == "DNAME" or recs[-1][3] == ".":
                        recs[-1][1:] = ["A", 300, "9.9.9.8"]
                b["zones"].append({"file": "extra%d.txt" % k, "ns": ns, "origin": o, "recs": G.sanitize(recs, o)})
        if "copy" in kinds and not any(wants_struct(j) for j in a["jobs"]):
            z = copy.deepcopy(r.choice(b["zones"]))
            z["ns"], z["file"] = "ns.zz8.", "copy.txt"
            b["zones"].append(z)
        if "records" in kinds:
            for z in b["zones"]:
                rest = z["recs"][1:]
                r.shuffle(rest)
                z["recs"] = z["recs"][:1] + rest
        if "zonefiles" in kinds:
            r.shuffle(b["zones"])
        if "tops" in kinds:
            r.shuffle(b["tops"])
        if "props" in kinds:
            r.shuffle(b["jobs"])
            for j in b["jobs"]:
                r.shuffle(j["Properties"])
        if "values" in kinds:
            for j in b["jobs"]:
                for p in j["Properties"]:
                    for k in ("Value", "Types"):
                        if isinstance(p.get(k), list):
                            r.shuffle(p[k])
        if "files" in kinds:
            for i, z in enumerate(b["zones"]):
                z["file"] = r.choice(["%d.zone", "zone %d", "db.%d.x.txt", "%d", "-%d", "Z%d.JSON"]) % r.randrange(100) + "_%d" % i
        if "case" in kinds:
            def mc(n, p=0.6):
                return "".join(c.upper() if r.random() < 0.5 else c for c in n) if r.random() < p else n
            b["tops"] = [mc(t) for t in b["tops"]]
            for z in b["zones"]:
                z["ns_case"] = mc(z["ns"])
                z["recs"] = [[mc(n), mc(t, 0.3), ttl, mc(d)] for n, t, ttl, d in z["recs"]]
            for j in b["jobs"]:
                j["Domain"] = mc(j["Domain"])
                for p in j["Properties"]:
                    if isinstance(p.get("Value"), list):
                        p["Value"] = [mc(v) for v in p["Value"]]
        return a, b, back

    def applicable(self, case):
        """Unreachable zone files must not be below an examined domain."""
        if "unreach" in case["kinds"]:
            return all(labels(j["Domain"].lower()) for j in case["jobs"])
        return True

    def render(self, c):
        r = G.render(c, jobs=c["jobs"])
        for z, m in zip(c["zones"], r["meta"]["ZoneFiles"]):
            m["NameServer"] = z.get("ns_case", z["ns"])
        return r

    def run(self, env, case):
        if not self.applicable(case):
            raise Skip
        a, b, back = self.change(case)
        ra, rb = self.render(a), self.render(b)
        x, y = env.run(ra), env.run(rb)
        outb = y["out"]
        if back:
            outb = re.sub(r"z\d\dw*", lambda m: back.get(m.group(0), m.group(0)), outb)
        # Which of the end nodes of a query is named by two kinds of entries depends on the order of the input.
        ca, cb = (canon_report(o, queries=False, concat=back is None) for o in (x["out"], outb))
        diff(ca, cb, "before", "after", "the report changes under " + ", ".join(case["kinds"]))
        ea, eb = sorted(j["ec"] for j in x["jobs"]), sorted(j["ec"] for j in y["jobs"])
        if ea != eb:
            raise Violation("the numbers of examined queries change under %s: %s %s" % (case["kinds"], ea, eb))
        return bool(ca) and ra != rb, ["kind:" + k for k in case["kinds"]] + (["findings"] if ca else ["no findings"])

    def sample(self, case):
        a, b, _ = self.change(case)
        return {"before": self.render(a), "after": self.render(b)}


# ---- C23 ----------------------------------------------------------------------------------------------------
TMPL = ["a", "a", "a", "cut", "cutf", "cname", "dname", "deep", "wild", "txt2", "mix", "mix"]


def filler_records(k, t, par, core, n, r):
    """Records of child number k of the wide name."""
    f = G.child("f%03d" % k, par)
    if t == "a":
        return [[f, "A", 300, "1.0.0.%d" % (k % 7)]]
    if t == "txt2":
        return [[f, "TXT", 300, '"v1"'], [f, "TXT", 0, '"v2"']]
    if t == "cut":
        return [[f, "NS", 300, "ns." + f], ["ns." + f, "A", 300, "1.0.0.9"], ["x." + f, "A", 300, "1.0.0.8"]]
    if t == "cutf":
        return [[f, "NS", 300, G.child("f%03d" % r.randrange(n), par)]]
    if t == "cname":
        return [[f, "CNAME", 300, r.choice(core + [G.child("f%03d" % r.randrange(n), par)])]]
    if t == "dname":
        return [[f, "DNAME", 300, r.choice(core)]]
    if t == "deep":
        return [["x." + f, "A", 300, "1.0.0.7"]]
    if t == "wild":
        return [["*." + f, "A", 300, "1.0.0.6"]]
    if t == "mix":
        # several kinds of data at and below one name
        out = []
        if r.random() < 0.5:
            ns = r.choice(["ns." + f, "ns." + f, "q.v.", G.child("f%03d" % r.randrange(n), par)])
            out.append([f, "NS", 300, ns])
            if ns == "ns." + f and r.random() < 0.8:
                out.append(r.choice([[ns, "A", 300, "1.0.0.9"], [ns, "AAAA", 300, "::9"]]))
        if r.random() < 0.4:
            out.append([f, "DNAME", 300, r.choice(core)])
        for ty, d in (("DS", "1 8 2 abcd"), ("A", "1.0.0.5"), ("TXT", '"mix"'), ("AAAA", "::5"), ("MX", "5 q.v."), ("SRV", "1 5 80 q.v.")):
            if r.random() < 0.3:
                out.append([f, ty, 300, d])
        if r.random() < 0.5:
            out.append([r.choice(["x.", "*.", "y.x.", "x."]) + f, r.choice(["A", "TXT"]), 300, "1.0.0.8"])
        return out or [[f, "A", 300, "1.0.0.1"]]
    raise AssertionError(t)


def at_crossing(rest, fl, pl, r):
    """The records in random order, with the first one after the 501st child of the name pl being a further record at or below an existing child."""
    recs = rest + fl
    r.shuffle(recs)
    kids = set()
    for k, x in enumerate(recs):
        l = labels(x[0])
        if len(l) > len(pl) and l[:len(pl)] == pl:
            kids.add(l[len(pl)])
            if len(kids) == 501:
                later = [x for x in recs[k + 1:] if labels(x[0])[:len(pl)] == pl and labels(x[0])[len(pl):len(pl) + 1] and labels(x[0])[len(pl)] in kids]
                core = [x for x in later if not labels(x[0])[len(pl)].startswith("f")]
                if core and r.random() < 0.8:
                    later = core
                elif not later:
                    break
                y = r.choice(later)
                i = next(i for i in range(k + 1, len(recs)) if recs[i] is y)
                recs.insert(k + 1, recs.pop(i))
                break
    return recs


class C23(Check):
    id = "C23"
    rule = ("a small random system in which one name (apex, inner name or root) of one or all zones gets 490-1100 further children of "
            "several kinds (hosts, cuts with glue and occluded data, CNAMEs, DNAMEs, names with deeper or wildcard children, some records "
            "twice), interleaved at random with the core records; loaded zones, 150 lookups and the reports of 4-9 jobs (Hops 0 etc.) are compared "
            "with the reference model; non-trivial: the wide name has more than 500 children and a core record was added after the 501st child")
    n_quick, n_thorough = 320, 6000
    quick_seconds, thorough_seconds = 240, 3000
    K = G.knobs(children=(0, 1, 1), recs=(2, 3, 4), dname=0.2, wild=0.25, deep=0.4, servers=(1, 1, 2), mut=0.15, self_ref=0.0, alias_chain=0.1, big=0)
    budget = Budget(ecs=5000, paths=20000, walk=400000)

    def gen(self, r, i):
        case = G.gen_system(r, self.K)
        case.pop("_names")
        if not valid_case(case):
            return None
        zs = case["zones"]
        z = r.choice(zs)
        x = r.random()
        if x < 0.5:
            par = z["origin"]
        elif x < 0.75:
            par = r.choice([rec[0] for rec in z["recs"] if "*" not in rec[0]] or [z["origin"]])
        else:
            par = G.child("p", z["origin"])
        case["wide"] = {"par": par, "n": r.choice([490, 499, 500, 501, 502, 503, 505, 505, 510, 510, 520, 530, 550, 600, 600, 800, 1100]), "seed": r.randint(0, 1 << 30),
                        "tmpl": [r.choice(TMPL) for _ in range(r.choice([1, 2, 4, 8]))],
                        "zones": [k for k, y in enumerate(zs) if y["origin"] == z["origin"] and (y is z or r.random() < 0.6)],
                        "mode": r.choice(["shuffle", "shuffle", "core-last", "core-first", "half", "cross", "cross"]), "dup": r.choice([0, 0, 3, 30])}
        if r.random() < 0.12:
            # a second wide name below the first one
            case["wide"]["nest"] = [r.choice(["e", "e", "a", "f003", "*"]), r.choice([499, 500, 501, 503, 520])]
        for k in case["wide"]["zones"]:
            o = zs[k]["origin"]
            for _ in range(r.choice([1, 2, 4])):
                n = G.child(r.choice(["a", "b", "w", "*", "*", "zz", "_s"]), par)
                if r.random() < 0.25:
                    n = G.child(r.choice(["x", "*"]), n)
                t = r.choice(["A", "A", "AAAA", "TXT", "CNAME", "NS", "DNAME"])
                d = {"A": "1.0.0.3", "AAAA": "::3", "TXT": '"v3"'}.get(t) or r.choice([G.child("f%03d" % r.randrange(490), par), "q.v.", G.child("a", par)])
                zs[k]["recs"].append([n, t, 300, "q.v." if t == "DNAME" else d])
                if r.random() < (0.8 if case["wide"]["mode"] == "cross" else 0.2) and t not in ("CNAME", "DNAME"):
                    zs[k]["recs"].append([n, "TXT" if t != "TXT" else "A", 300, '"v4"' if t != "TXT" else "1.0.0.4"])
            zs[k]["recs"] = G.sanitize(zs[k]["recs"], o)
        if r.random() < 0.5:
            # a DNAME leading to the wide name
            k = case["wide"]["zones"][0]
            src = G.child("dd", zs[k]["origin"])
            if par != zs[k]["origin"] and par != ".":
                zs[k]["recs"].append([src, "DNAME", 300, par])
        elif r.random() < 0.15 and par != "." and "*" not in par:
            # a DNAME at the wide name itself, whose target has some of the same names
            k = case["wide"]["zones"][0]
            dst = G.child("dt", zs[k]["origin"])
            if not under(labels(par), labels(dst)):
                zs[k]["recs"].append([par, "DNAME", 300, dst])
                for _ in range(r.choice([1, 3])):
                    n = G.child(r.choice(["f%03d" % r.randrange(490), "a", "b", "q"]), dst)
                    zs[k]["recs"].append([G.child(r.choice(["x", "q", "*"]), n) if r.random() < 0.4 else n, "A", 300, "1.0.0.5"])
                zs[k]["recs"] = G.sanitize(zs[k]["recs"], zs[k]["origin"])
        jobs = []
        props = lambda: [{"PropertyName": "Hops", "Value": 0}] + [G.gen_prop(r, n, case) for n in r.sample(
            ["Rewrites", "RewriteBlackholing", "LameDelegation", "ResponseReturned", "QueryRewrite", "DelegationConsistency"], 1)]
        x = r.random()
        dom = par if x < 0.6 else "." if x < 0.7 else z["origin"]
        if r.random() < 0.8:
            jobs.append({"Domain": dom, "SubDomain": True, "Properties": props()})
            if r.random() < 0.5:
                jobs[-1]["Properties"].append({"PropertyName": "StructuralDelegationConsistency"})
        for _ in range(r.choice([3, 5, 8])):
            f = G.child(r.choice(["f%03d" % r.randrange(case["wide"]["n"]), "f%03d" % r.randrange(case["wide"]["n"]), "q", "a", "b"]),
                        par if r.random() < 0.7 else G.child("dd", z["origin"]))
            if r.random() < 0.25:
                f = G.child(r.choice(["x", "q", "ns"]), f)
            jobs.append({"Domain": f, "SubDomain": r.random() < 0.4, "Properties": props()})
        case["jobs"] = jobs
        if self.build(case) is None:
            return None
        return case

    def build(self, case):
        """The zones with the children added; None when they are not valid."""
        w = case["wide"]
        r = random.Random(w["seed"])
        par, pl = w["par"], labels(w["par"])
        c = {"zones": copy.deepcopy(case["zones"]), "tops": case["tops"]}
        core = sorted({rec[0] for z in c["zones"] for rec in z["recs"] if "*" not in rec[0] and not under(labels(rec[0]), pl) and rec[1] != "DNAME"}
                      | {"q.v."})
        # DNAMEs at or above the wide name would multiply the queries, cuts hide it
        fill = []
        for k in range(w["n"]):
            t = w["tmpl"][k % len(w["tmpl"])] if r.random() < 0.9 else r.choice(TMPL)
            fill += filler_records(k, t, par, core, w["n"], r)
        if w.get("nest"):
            for k in range(w["nest"][1]):
                fill.append([G.child(G.child("g%03d" % k, w["nest"][0]), par) if k % 50 else G.child(G.child(G.child("x", "g%03d" % k), w["nest"][0]), par), "A", 300, "1.0.0.6"])
        where = []
        for k in w["zones"]:
            if k >= len(c["zones"]):
                continue
            z = c["zones"][k]
            soa, rest = z["recs"][:1], z["recs"][1:]
            fl = [x for x in fill if under(labels(z["origin"]), labels(x[0]))]
            if r.random() < 0.3:
                fl = [x for x in fl if r.random() < 0.98]
            if w["mode"] == "shuffle":
                recs = rest + fl
                r.shuffle(recs)
            elif w["mode"] == "core-last":
                r.shuffle(fl)
                recs = fl + rest
            elif w["mode"] == "core-first":
                recs = rest + fl
            elif w["mode"] == "cross":
                recs = at_crossing(rest, fl, pl, r)
            else:
                h = len(fl) // 2
                recs = fl[:h] + rest + fl[h:]
            z["recs"] = G.sanitize(soa + recs, z["origin"])
            kids, late = set(), False
            for x in z["recs"]:
                l = labels(x[0])
                if len(l) > len(pl) and l[:len(pl)] == pl:
                    kids.add(l[len(pl)])
                    if len(kids) > 501 and not l[len(pl)].startswith("f"):
                        late = True
            where.append((k, len(kids), late))
        if not valid_case(dict(c, jobs=case["jobs"])):
            return None
        return c, where

    def valid(self, case):
        w = case["wide"]
        return bool(w["zones"] and w["tmpl"] and w["n"] > 0 and case["jobs"]) and self.build(case) is not None

    def droppable(self, path):
        return path[-1] in ("zones", "recs", "tops", "jobs", "Properties", "Value", "Types", "tmpl") and path[:1] != ["wide"] or path[-1] == "tmpl"

    def _smaller(case):
        for n in (3, 20, 502, 505, 520, 600):
            if n < case["wide"]["n"]:
                c = copy.deepcopy(case)
                c["wide"]["n"] = n
                yield c
        for k, v in (("mode", "core-last"), ("dup", 0), ("tmpl", ["a"]), ("nest", None)):
            c = copy.deepcopy(case)
            c["wide"][k] = v
            yield c
    simplify = (_smaller,)

    def run(self, env, case):
        c, where = self.build(case)
        w = case["wide"]
        r = random.Random(w["seed"] + 1)
        s = system_of(c)
        jobs = [j for j in case["jobs"] if not (wants_struct(j) and through_dname(s, j))]
        ana = []
        for j in jobs:
            ana.append(analyse(s, j, self.budget))
        zones = [M.Zone(z["ns"], z["origin"], z["recs"]) for z in c["zones"]]
        look = []
        for k, z in enumerate(c["zones"]):
            names = [x[0] for x in z["recs"]]
            for _ in range(150 if k in w["zones"] else 3):
                n = r.choice(names)
                x = r.random()
                if x < 0.4:
                    n = G.child("f%03d" % r.randrange(w["n"] + 3), w["par"])
                elif x < 0.5:
                    n = G.child(r.choice(G.POOL + ["*"]), w["par"])
                elif x < 0.55:
                    n = w["par"]
                elif x < 0.7 and w.get("nest"):
                    n = G.child(w["nest"][0], w["par"])
                    if r.random() < 0.6:
                        n = G.child(r.choice(["g%03d" % r.randrange(530), "q", "*"]), n)
                if r.random() < 0.3:
                    n = G.child(r.choice(["x", "ns", "q", "*"]), n)
                if not under(labels(z["origin"]), labels(n)) or not M.valid_name(labels(n)):
                    n = z["origin"]
                look.append({"zone": k, "name": n, "types": G.gen_types(r) if r.random() < 0.9 else list(M.ALL), "excluded": r.random() < 0.3})
        q = G.render(c, jobs=jobs, lookups=look, zones=True, timeout_ms=60000)
        if w["dup"]:
            rr = random.Random(w["seed"] + 2)
            for z in c["zones"]:
                lines = q["files"][z["file"]].splitlines(True)
                for _ in range(w["dup"]):
                    if len(lines) > 1:
                        l = rr.choice(lines[1:])
                        lines.insert(rr.randint(1, len(lines)), l)
                # the first of several equal lines counts, so the records stay the same
                q["files"][z["file"]] = "".join(lines)
        res = env.run(q)
        # loaded zones
        want = want_dump(c["zones"])
        for z in res["zones"]:
            names = [n for n, _ in z["nodes"]]
            if len(set(names)) != len(names):
                raise Violation("zone %s %s: a node exists twice: %s" % (z["ns"], z["origin"], [n for n, k in Counter(names).items() if k > 1][:3]))
            have = Counter((o, t, ttl, d) for n, rrs in z["nodes"] for o, t, ttl, d in rrs)
            w_ = want.pop((z["ns"], z["origin"]), None)
            if w_ is None or w_ != have:
                raise Violation("zone %s %s does not hold its records: missing %s, unexpected %s" % (
                    z["ns"], z["origin"], list(((w_ or Counter()) - have).items())[:3], list((have - (w_ or Counter())).items())[:3]))
            exp = {()}
            for o, _, _, _ in have:
                l = labels(o)
                exp |= {l[:k] for k in range(1, len(l) + 1)}
            if {labels(n) for n in names} != exp:
                raise Violation("zone %s %s has other nodes than its records need" % (z["ns"], z["origin"]))
        from .checks_model import lookup_groups, lookup_types
        for lq, got in zip(look, res["lookups"]):
            exp = zones[lq["zone"]].lookup(labels(lq["name"]), frozenset(lq["types"]), lq["excluded"])
            e = [(t, lookup_types(t, ty, rs), lookup_groups(rs)) for t, ty, rs in exp]
            g = [(t, lookup_types(t, ty, rs), lookup_groups(rs)) for t, ty, rs in got or [("none", [], [])]]
            if sorted(map(repr, e)) != sorted(map(repr, g)):
                raise Violation("lookup of %s %s%s in a zone with %d children of %s:\n expected %s\n got      %s"
                                % (lq["name"], ",".join(lq["types"]), " (names below)" if lq["excluded"] else "", w["n"], w["par"], e, g))
        # reports
        exp = {}
        for j, (an, structural) in zip(jobs, ana):
            for p in j["Properties"]:
                if p["PropertyName"] in M.SIMPLE:
                    for ec, rs, paths, ends in an:
                        for e in M.SIMPLE[p["PropertyName"]](rs, paths, ends, p):
                            exp.setdefault(e["Property"], []).append(e)
            if wants_struct(j):
                for node, display in structural:
                    e = M.structural_entry(s, node, display)
                    if e:
                        exp.setdefault(e["Property"], []).append(canon_struct(e))
        kinds = {"Hops"} | {"Rewrites", "Rewrite Blackholing", "Lame Delegation", "Query Rewrite", "Delegation Consistency", "Structural Delegation Consistency"}
        for k in sorted(kinds):
            act = entries(res, k)
            if k == "Structural Delegation Consistency":
                act = [canon_struct(e) for e in act]
            if k == "Delegation Consistency":
                continue
            compare(k, exp.get(k, []), act, "with %d children of %s" % (w["n"], w["par"]))
        n = max((x for _, x, _ in where), default=0)
        feats = ["children>500" if n > 500 else "children<=500", "mode:" + w["mode"]]
        if any(l for _, _, l in where):
            feats.append("core child after the 501st")
        if any(j["SubDomain"] for j in jobs):
            feats.append("sub job")
        return n > 500 and any(l for _, _, l in where), feats

    def sample(self, case):
        return {"wide": case["wide"], "jobs": case["jobs"], "files": {z["file"]: G.render_zone(z) for z in case["zones"]}}


# ---- C24 ----------------------------------------------------------------------------------------------------
WEIRD = ['"a\\"b"', '"back\\\\slash"', '"tab\there"', '"\x01\x02\x1f"', '"\x7f"', '"\xff\xfe"', '"\xc3\xa9"', '"\xe2\x80\xa8"', '"]"', '"},{"', '"%s%n{0}"',
         '"</script>"', '"\xed\xa0\x80"', "'", '"\xf0\x9f\x98\x80"', '"{}"', "\\065", "a\\.b"]
WLABEL = ["\xe9", "\xff", "a\x01", "{0}", "%d", "a'b", "<x>", "]", "~", "\xc3\xa9", "a\\\\b", "}", "&", "\\\"q"]


REPORTED = {"Hops": "Hops", "Rewrites": "Rewrites", "LameDelegation": "Lame Delegation", "RewriteBlackholing": "Rewrite Blackholing",
            "QueryRewrite": "Query Rewrite", "NameserverContact": "Name Server Contact"}


def cli_env(exe, case_files, args, cwd_files=(), timeout=60, dirname="zones"):
    """Runs the program in a scratch directory: (status, {file: bytes}, output)."""
    d = tempfile.mkdtemp(prefix="vfc.")
    try:
        zd = os.path.join(d, dirname)
        os.makedirs(zd)
        for name, data in case_files.items():
            p = os.path.join(zd, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
        for name, data in cwd_files:
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
        before = set(os.listdir(d))
        try:
            p = subprocess.run([exe] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return None, {}, b""
        files = {}
        for root, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(root, f)
                rel = os.path.relpath(p, d)
                if not rel.startswith(dirname + os.sep):
                    with open(p, "rb") as h:
                        files[rel] = h.read()
        return rc, files, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def strict_array(data, what):
    try:
        v = json.loads(data.decode("utf-8"))
    except (ValueError, UnicodeDecodeError) as e:
        raise Violation("%s is not valid JSON: %s: %r" % (what, e, data[:400]))
    if not isinstance(v, list):
        raise Violation("%s is not a JSON array" % what)
    return v


class C24(Check):
    id = "C24"
    programs = [("fast", "worker"), ("fast", "cli")]
    rule = ("the built command line program on generated zone directories (sub-directories, unusual file names, special bytes in names and "
            "data) with or without a jobs file, with --lint, --output, -s, -l, -v in random combinations, against the library run of the same "
            "jobs (default jobs: an explicit job with the documented properties, and the reference model); and on defective metadata; "
            "non-trivial: findings were written, or metadata was rejected")
    n_quick, n_thorough = 3000, 20000
    K = G.knobs(children=(0, 1, 1, 2), ttls=(0, 300))

    def gen(self, r, i):
        case = G.gen_system(r, self.K)
        case.pop("_names")
        if not valid_case(case) or not jobs_small(case, [None]):
            return None
        case["opts"] = sorted({r.choice(["-s", "-l", "-v"]) for _ in range(r.choice([0, 0, 1, 2]))})
        case["lint"] = r.random() < 0.5
        case["output"] = r.choice([None, None, "out.json", "deep/er/o.json", "report", "with space.json", "o" * 130 + ".json", "d" * 90 + "/" + "e" * 90 + "/r.json"])
        case["stale"] = r.random() < 0.4
        case["mixcase"] = r.choice([0, 0, r.randint(1, 1 << 30)])
        case["weird"] = []
        for _ in range(r.choice([0, 0, 0, 1, 2, 4])):
            z = r.randrange(len(case["zones"]))
            own = r.choice([x[0] for x in case["zones"][z]["recs"]])
            x = r.random()
            if x < 0.5:
                case["weird"].append([z, own, r.choice(["TXT", "TXT", "A"]), r.choice([0, 300]), r.choice(WEIRD)])
            else:
                case["weird"].append([z, G.child(r.choice(WLABEL), case["zones"][z]["origin"]), r.choice(["A", "TXT", "CNAME"]), r.choice([0, 300]), "x.t."])
        case["lintstuff"] = r.random() < (0.7 if case["lint"] else 0.1)
        for z in case["zones"]:
            x = r.random()
            if x < 0.3:
                z["file"] = r.choice(["sub/", "a b/", "./", ""]) + z["file"]
            elif x < 0.4:
                z["file"] = "\xe9" + z["file"]
        x = r.random()
        if x < 0.3:
            case["jobs"] = None
        else:
            jobs = []
            for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
                j = G.gen_job(r, case, r.choice(G.ALLPROPS), 0.6)
                if not (wants_struct(j) and through_dname(system_of(case), j)):
                    jobs.append(j)
            if case["weird"] and r.random() < 0.8:
                t = ["TXT", "A"]
                jobs.append({"Domain": min((z["origin"] for z in case["zones"]), key=len), "SubDomain": True, "Properties": r.sample([
                    {"PropertyName": "ZeroTTL", "Types": t}, {"PropertyName": "ResponseReturned", "Types": ["TXT", "MX"]},
                    {"PropertyName": "ResponseValue", "Types": ["TXT"], "Value": [r.choice(WEIRD)]}], 2)})
            if not jobs_small(case, jobs):
                return None
            if jobs and r.random() < 0.2:
                jobs.insert(r.randint(0, len(jobs)), copy.deepcopy(r.choice(jobs)))
            case["jobs"] = jobs
        case["defect"] = None
        if r.random() < 0.2:
            case["defect"] = r.choice(["no tops", "no zonefiles", "no filename", "no nameserver", "missing file", "tops elsewhere", "tops empty",
                                       "missing file", "no filename", "no nameserver"])
            case["which"] = r.randrange(len(case["zones"]))
            if case["defect"] == "tops elsewhere":
                known = {z["ns"].lower() for z in case["zones"]}
                case["elsewhere"] = [t for t in ["ns.nowhere.", r.choice(sorted(known)) + "x.", "x" + r.choice(sorted(known)), "."]
                                     if t not in known][:r.choice([1, 2, 3, 4])]
        return case

    def valid(self, case):
        c = dict(case, jobs=case["jobs"] or [])
        if any(z["file"] == y["file"] for i, z in enumerate(case["zones"]) for y in case["zones"][:i]):
            return False
        return valid_case(c) and all(w[0] < len(case["zones"]) for w in case["weird"]) and (
            case["defect"] is None or case["which"] < len(case["zones"])) and jobs_small(case, case["jobs"] if case["jobs"] else [None])

    def droppable(self, path):
        return path[-1] in ("zones", "recs", "tops", "jobs", "Properties", "Value", "Types", "weird", "opts")

    def layout(self, case):
        files, meta = {}, {"TopNameServers": list(case["tops"]), "ZoneFiles": []}
        for k, z in enumerate(case["zones"]):
            t = G.render_zone(z)
            for w in case["weird"]:
                if w[0] == k and under(labels(z["origin"]), labels(w[1])):
                    t += "%s %d IN %s %s\n" % (w[1], w[3], w[2], w[4])
            files[z["file"]] = t
            meta["ZoneFiles"].append({"FileName": z["file"], "NameServer": z["ns"]})
        if case["lintstuff"]:
            # lint issues with special bytes
            z = case["zones"][0]
            o = z["origin"]
            for l in ("dup", "d\xe9", "d'{0}"):
                rec = "%s 300 IN TXT %s\n" % (G.child(l, o), '"x\\\\y \xff"')
                files[z["file"]] += rec + rec
        return files, meta

    def run(self, env, case):
        files, meta = self.layout(case)
        jobs = case["jobs"]
        feats = ["default" if jobs is None else "jobs:%d" % len(jobs)] + (["lint"] if case["lint"] else []) + case["opts"]
        d = case["defect"]
        m = copy.deepcopy(meta)
        if d:
            zf = m["ZoneFiles"][case["which"]]
            if d == "no tops":
                del m["TopNameServers"]
            elif d == "no zonefiles":
                del m["ZoneFiles"]
            elif d == "no filename":
                del zf["FileName"]
            elif d == "no nameserver":
                del zf["NameServer"]
            elif d == "missing file":
                zf["FileName"] = "no-such-" + zf["FileName"].replace("/", "-")
            elif d == "tops elsewhere":
                m["TopNameServers"] = case.get("elsewhere", ["ns.nowhere."])
            elif d == "tops empty":
                m["TopNameServers"] = []
        if case.get("mixcase"):
            rr = random.Random(case["mixcase"])
            if "TopNameServers" in m:
                m["TopNameServers"] = [G.mixcase(rr, t, 1) if rr.random() < 0.6 else t for t in m["TopNameServers"]]
            for zf in m.get("ZoneFiles", ()):
                if "NameServer" in zf and rr.random() < 0.6:
                    zf["NameServer"] = G.mixcase(rr, zf["NameServer"], 1)
        enc = lambda s: s.encode("latin-1")
        raw = {k: enc(v) for k, v in files.items()}
        # the metadata itself is JSON, so file names are given as text there
        raw = {k.encode("utf-8"): v for k, v in raw.items()}
        raw = {os.fsdecode(k): v for k, v in raw.items()}
        raw["metadata.json"] = json.dumps(m, ensure_ascii=False).encode("utf-8")
        args = ["zones"]
        cwd = []
        if jobs is not None:
            cwd.append(("jobs.json", json.dumps(jobs, ensure_ascii=False).encode("utf-8")))
            args.append("--jobs=jobs.json")
        args += case["opts"]
        if case["lint"]:
            args.append("--lint")
        outf = "output.json"
        if case["output"]:
            outf = case["output"]
            args.append("--output=" + outf)
            if os.path.dirname(outf):
                cwd.append((os.path.dirname(outf) + "/.keep", b""))
        if case["stale"] and not d:
            cwd.append((outf, b'[{"stale": 1}]\n' * 500))
            cwd.append(("lint.json", b'[{"stale": 1}]\n' * 50))
        rc, out, txt = cli_env(env.exes[("fast", "cli")], raw, args, cwd)
        if rc is None:
            if not jobs_small(case, jobs if jobs else [None]):
                raise Skip
            raise Violation("the program does not end")
        if d:
            if rc == 0:
                raise Violation("metadata with defect '%s' is not rejected with a failure status" % d)
            if rc < 0:
                raise Violation("metadata with defect '%s' ends the program with signal %d" % (d, -rc))
            if outf in out:
                raise Violation("metadata with defect '%s': a report is written" % d)
            return True, feats + ["defect:" + d]
        if rc != 0:
            raise Violation("the program ends with status %s: %s" % (rc, txt[-1000:]))
        if outf not in out:
            raise Violation("no report in %s; files: %s; %s" % (outf, sorted(out), txt[-500:]))
        got = strict_array(out[outf], "the report")
        keys = [jkey(e) for e in got]
        # bytes that are not UTF-8 are written as U+FFFD, which may make different findings look alike
        rep = [k for k, n in Counter(keys).items() if n > 1 and "\\ufffd" not in k]
        if rep:
            raise Violation("the report repeats an entry: %s" % rep[:1])
        w = {"files": {}, "meta": {"TopNameServers": case["tops"], "ZoneFiles": []}, "lint": case["lint"],
             "jobs": [DEFAULT] if jobs is None else jobs}
        for k, z in enumerate(case["zones"]):
            w["files"]["z%d" % k] = files[z["file"]]
            w["meta"]["ZoneFiles"].append({"FileName": "z%d" % k, "NameServer": z["ns"]})
        lib = env.run(w)
        ref = out_json(lib["out"].encode("latin-1").decode("utf-8"))
        diff(sorted(map(jkey, ref)), sorted(keys), "library run", "program", "the report of the program differs from the findings of its jobs")
        if len(got) != lib["n"]:
            raise Violation("the report has %d entries, %d findings were made" % (len(got), lib["n"]))
        if not case["weird"] and not case["lintstuff"]:
            js = [DEFAULT] if jobs is None else jobs
            sysm = system_of(case)
            exp = {n: [] for n in REPORTED}
            for j in js:
                an, _ = analyse(sysm, j)
                for p in j["Properties"]:
                    if p["PropertyName"] in REPORTED:
                        exp[p["PropertyName"]] += [e for _, rs, paths, ends in an for e in M.SIMPLE[p["PropertyName"]](rs, paths, ends, p)]
            for n, name in REPORTED.items():
                compare(name, exp[n], [e for e in got if e["Property"] == name], "in the report of the program")
            feats.append("model")
        if case["lint"]:
            if "lint.json" not in out:
                raise Violation("no lint.json")
            li = strict_array(out["lint.json"], "lint.json")
            lref = out_json(lib["lint"].encode("latin-1").decode("utf-8"))
            f = lambda l, strip: sorted(jkey({k: (os.path.basename(v) if k == "File Name" and strip else v) for k, v in e.items()}) for e in l)
            names = {z["file"].rsplit("/", 1)[-1]: "z%d" % k for k, z in enumerate(case["zones"])}
            li2 = []
            for e in li:
                e = dict(e)
                for k in list(e):
                    if "ile" in k and isinstance(e[k], str):
                        e[k] = names.get(e[k].rsplit("/", 1)[-1], e[k])
                li2.append(e)
            lref = [{k: (v.rsplit("/", 1)[-1] if "ile" in k and isinstance(v, str) else v) for k, v in e.items()} for e in lref]
            diff(sorted(map(jkey, lref)), sorted(map(jkey, li2)), "library run", "program", "lint.json differs")
            if li:
                feats.append("lint issues")
        if case["weird"]:
            feats.append("special bytes")
        if got:
            feats.append("findings")
        return bool(got), feats

    def sample(self, case):
        files, meta = self.layout(case)
        return {"files": files, "meta": meta, "jobs": case["jobs"], "defect": case["defect"], "lint": case["lint"], "output": case["output"]}


CHECKS = {c.id: c for c in (C20, C21, C22, C23, C24)}
