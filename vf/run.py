"""Check runner: python3 -m vf.run C04 [--replay FILE] [--tier quick|thorough] [--n N]"""
import argparse, copy, hashlib, importlib, json, multiprocessing as mp, os, queue, random, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from . import build, proto  # noqa: E402
from .shrink import shrink  # noqa: E402


class Violation(Exception):
    pass


class Skip(Exception):
    pass


MALFORMED = (LookupError, TypeError, ValueError, AttributeError)


def run_case(check, env, case):
    """check.run, where a report that does not have the documented shape is a violation like any other."""
    try:
        return check.run(env, case)
    except MALFORMED as e:
        f = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("a report is not of the documented shape: %s at %s:%d\n%s"
                        % (type(e).__name__, os.path.basename(f.filename), f.lineno, traceback.format_exc()[-1500:]))


def kind_of(msg):
    """Malformed reports are told apart by their place, so that shrinking does not drift to malformed cases."""
    return msg.split("\n")[0] if msg.startswith("a report is not of the documented shape") else "violation"


class Check:
    id = None
    rule = ""
    programs = [("fast", "worker")]
    n_quick, n_thorough = 3000, 60000
    quick_seconds, thorough_seconds = 240, 3000   # hard stops, far above the normal running time
    procs = 8
    assumptions = []

    def gen(self, r, i):
        raise NotImplementedError

    def run(self, env, case):
        """Raises Violation, or returns (nontrivial, features)."""
        raise NotImplementedError

    def valid(self, case):
        return True

    simplify = ()

    def droppable(self, path):
        return path[-1] in ("zones", "recs", "tops", "jobs", "Properties", "Value", "Types", "lookups", "queries")

    def key(self, case):
        return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()

    def sample(self, case):
        return case


class Env:
    def __init__(self, exes):
        self.exes, self.workers = exes, {}

    def worker(self, variant="fast"):
        w = self.workers.get(variant)
        if w is None:
            w = self.workers[variant] = proto.Worker(self.exes[(variant, "worker")])
        return w

    def raw(self, case, variant="fast"):
        for attempt in range(3):
            try:
                return self.worker(variant).run(case)
            except RuntimeError:
                if attempt == 2:
                    raise Skip

    def run(self, case, variant="fast"):
        """Runs a case that has to end normally and returns its results."""
        r = self.raw(case, variant)
        if r["status"] != "ok":
            raise Violation("the run did not end normally: %s %s %s" % (r["status"], r.get("code", ""), r.get("err", "")[-1500:]))
        if "exception" in r["res"]:
            raise Violation("unhandled exception: " + r["res"]["exception"])
        return r["res"]

    def close(self):
        for w in self.workers.values():
            w.close()
        self.workers = {}


def rng(check, seed, i):
    return random.Random("%s/%d/%d" % (check.id, seed, i))


def make(check, seed, i):
    for a in range(30):
        r = random.Random("%s/%d/%d/%d" % (check.id, seed, i, a))
        try:
            c = check.gen(r, i)
        except Skip:
            c = None
        if c is not None:
            return c
    return None


def evaluate(check, env, case):
    """None, or the text of the violation."""
    try:
        run_case(check, env, case)
    except Violation as v:
        return str(v)
    except Skip:
        return None
    return None


def confirm(check, env, case):
    """Two of three further runs on fresh workers have to fail as well."""
    bad, msg = 0, None
    for _ in range(3):
        env.close()
        m = evaluate(check, env, case)
        if m is not None:
            bad, msg = bad + 1, m
    return msg if bad >= 2 else None


def shard(check, exes, seed, indices, extra, deadline, stop, outq):
    env = Env(exes)
    st = dict(n=0, skipped=0, nontrivial=set(), features={}, samples=[], flaky=0, errors=[])
    try:
        todo = [("corpus", c) for c in extra] + [("gen", i) for i in indices]
        for kind, x in todo:
            if stop.is_set() or time.time() > deadline:
                break
            case = x if kind == "corpus" else make(check, seed, x)
            if case is None:
                st["skipped"] += 1
                continue
            try:
                nt, feats = run_case(check, env, case)
            except Skip:
                st["skipped"] += 1
                continue
            except Violation as v:
                msg = confirm(check, env, case)
                if msg is None:
                    st["flaky"] += 1
                    continue
                stop.set()
                t0 = time.time()
                small = case
                if kind == "gen":
                    def still(c):
                        m = evaluate(check, env, c)
                        return m is not None and kind_of(m) == kind_of(msg)
                    small = shrink(case, still, check.valid, check.simplify,
                                   seconds=20, droppable=check.droppable)
                msg = evaluate(check, env, small) or msg
                outq.put(("violation", {"case": small, "message": msg, "original": case if small != case else None}))
                break
            except Exception:
                st["errors"].append(traceback.format_exc()[-3000:])
                if len(st["errors"]) > 3:
                    break
                continue
            st["n"] += 1
            for f in feats or ():
                st["features"][f] = st["features"].get(f, 0) + 1
            if nt:
                st["nontrivial"].add(check.key(case))
                if len(st["samples"]) < 2:
                    st["samples"].append(check.sample(case))
    except BaseException:
        st["errors"].append(traceback.format_exc()[-3000:])
    finally:
        try:
            env.close()
        except Exception:
            pass
        outq.put(("stats", st))


def load_corpus(cid):
    d = os.path.join(VERIF, "corpus", cid)
    out = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith(".json"):
                with open(os.path.join(d, f)) as h:
                    out.append(json.load(h))
    return out


def known_findings(cid):
    """[(case, text)] of the recorded, unrepaired defects of a property."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % cid):
                f, _, what = line.split(" ", 2)[2].strip().partition(" ")
                with open(os.path.join(VERIF, f)) as h:
                    out.append((json.load(h)["case"], what))
    return out


def get_check(cid):
    for m in ("checks_model", "checks_input", "checks_system", "checks_faults"):
        try:
            mod = importlib.import_module("vf." + m)
        except ModuleNotFoundError as e:
            if e.name == "vf." + m:
                continue
            raise
        if cid in mod.CHECKS:
            return mod.CHECKS[cid]()
    raise SystemExit("unknown check " + cid)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--n", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--index", type=int)
    a = ap.parse_args(argv)
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    check = get_check(a.check)
    check.tier = tier
    t0 = time.time()
    try:
        exes = {vp: build.build(*vp) for vp in check.programs}
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    tb = time.time() - t0
    check.setup(exes) if hasattr(check, "setup") else None
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        env = Env(exes)
        msg = evaluate(check, env, rep["case"] if "case" in rep else rep)
        env.close()
        print(msg or "held")
        if msg:
            print("VIOLATION property=%s replay=%s" % (check.id, a.replay))
        return 1 if msg else 0
    if a.index is not None:
        env = Env(exes)
        case = make(check, seed, a.index)
        print(json.dumps(case))
        print(evaluate(check, env, case))
        env.close()
        return 0
    env = Env(exes)
    known = []
    for case, what in known_findings(check.id):
        if evaluate(check, env, case) is not None:
            print("KNOWN-FINDING: property=%s %s" % (check.id, what), flush=True)
            known.append(what)
    env.close()
    n = a.n or (check.n_thorough if tier == "thorough" else check.n_quick)
    deadline = time.time() + (check.thorough_seconds if tier == "thorough" else check.quick_seconds)
    stop, outq = mp.Event(), mp.Queue()
    corpus = load_corpus(check.id)
    ps = []
    k = min(check.procs, n)
    for j in range(k):
        p = mp.Process(target=shard, args=(check, exes, seed, range(j, n, k), corpus[j::k], deadline, stop, outq))
        p.start()
        ps.append(p)
    stats, viol = [], []
    while len(stats) < k:
        try:
            kind, x = outq.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in ps):
                break
            continue
        (stats if kind == "stats" else viol).append(x)
    for p in ps:
        p.join(10)
    nt = set()
    feats, samples, errors = {}, [], []
    for s in stats:
        nt |= s["nontrivial"]
        errors += s["errors"]
        samples += s["samples"]
        for f, c in s["features"].items():
            feats[f] = feats.get(f, 0) + c
    total = sum(s["n"] for s in stats)
    if hasattr(check, "finish") and not viol:
        extra = check.finish(exes, tier, seed, deadline)   # may add evaluations, features and violations
        total += extra.get("n", 0)
        feats.update(extra.get("features", {}))
        viol += extra.get("violations", [])
        errors += extra.get("errors", [])
        nt |= set(extra.get("nontrivial", ()))
        samples += extra.get("samples", [])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"evaluations": total, "distinct_nontrivial": len(nt), "rule": check.rule,
           "samples": trim(sorted(samples, key=lambda s: len(json.dumps(s)))[:3]), "features": feats,
           "corpus_cases": len(corpus), "known_findings": known, "skipped": sum(s["skipped"] for s in stats),
           "unconfirmed_failures": sum(s["flaky"] for s in stats), "build_s": round(tb, 1)}
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    with open(os.path.join(VERIF, "evidence", check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        viol.sort(key=lambda v: len(json.dumps(v["case"])))
        v = viol[0]
        path = os.path.join("replays", "%s-%s.json" % (check.id, hashlib.sha1(json.dumps(v["case"], sort_keys=True).encode()).hexdigest()[:10]))
        with open(os.path.join(VERIF, path), "w") as f:
            json.dump(dict(v, property=check.id), f, indent=1)
        print(v["message"][:4000])
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1
    if errors:
        print("CHECK ERROR\n" + errors[0])
        return 2
    if len(stats) < k:
        print("CHECK ERROR: a shard ended without a result")
        return 2
    print("property=%s held: %d cases, %d distinct non-trivial, %.1f s (build %.1f s) %s"
          % (check.id, total, len(nt), time.time() - t0, tb, json.dumps(feats)))
    return 0


def trim(samples, limit=20000):
    out = []
    for s in samples:
        t = json.dumps(s)
        out.append(s if len(t) <= limit else {"truncated": t[:limit]})
    return out


if __name__ == "__main__":
    from vf.run import main as _main   # one copy of this module only
    sys.exit(_main())
