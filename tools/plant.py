"""Development helper for planted bugs (no check uses it).
plant.py new ID FILE <<< 'old\n====\nnew'   makes seeded/ID/patch.diff (several hunks separated by a line '####')
plant.py try ID                             builds, tests, runs the check, demo with and without the patch"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git -C /repo checkout -q -- .")


def apply_text(text):
    f = None
    for part in text.split("\n####\n"):
        if part.startswith("@"):
            f, _, part = part[1:].partition("\n")
        old, new = part.split("\n====\n")
        p = os.path.join(R, f)
        s = open(p).read()
        old, new = old.strip("\n"), new.strip("\n")
        n = s.count(old)
        if n != 1:
            raise SystemExit("%d matches in %s of:\n%s" % (n, f, old))
        open(p, "w").write(s.replace(old, new))


def tests():
    o = sh("bash /opt/vp/test.sh /tmp/plant.out.json")
    try:
        r = json.load(open("/tmp/plant.out.json"))
    except Exception:
        return "NO RESULT " + o.stdout[-800:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("passed") or base
    missing = [t for t in want if t not in r["passed"]]
    return "tests ok" if not missing else "TESTS FAIL %s %s" % (missing[:3], o.stdout[-600:] if not r["passed"] else "")


def demo(i):
    o = sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=R, timeout=300)
    return o.returncode, o.stdout[-700:]


def store(i, case):
    """Writes the demo of a planted bug; the expected result comes from the unchanged tree."""
    sys.path.insert(0, V)
    from vf import gen
    d = os.path.join(V, "seeded", i)
    if "zones" in case and "files" not in case:
        case = gen.render(case, jobs=case.get("jobs") or jobs())
    case = {k: case[k] for k in ("files", "meta", "jobs", "lint", "counts", "repeat") if k in case}
    sh("bash /opt/vp/build.sh")
    os.chdir(R)
    sys.path.insert(0, os.path.join(V, "tools", "demo"))
    import demo as D
    case["expect"] = D.execute(case)
    json.dump(case, open(os.path.join(d, "case.json"), "w"), indent=1)
    for f in ("demo.sh", "demo.py"):
        shutil.copy(os.path.join(V, "tools", "demo", f), os.path.join(d, f))
    print(json.dumps(case)[:1500])


def jobs():
    """For checks whose cases have no jobs: everything, everywhere."""
    ty = ["A", "AAAA", "MX", "TXT"]
    return [{"Domain": d, "SubDomain": True, "Properties": [
        {"PropertyName": "Hops", "Value": 0}, {"PropertyName": "Rewrites", "Value": 0},
        {"PropertyName": "ResponseReturned", "Types": ty}, {"PropertyName": "ResponseConsistency", "Types": ty},
        {"PropertyName": "DelegationConsistency"}, {"PropertyName": "LameDelegation"},
        {"PropertyName": "RewriteBlackholing"}, {"PropertyName": "ResponseValue", "Types": ty, "Value": ["x"]},
        {"PropertyName": "StructuralDelegationConsistency"}]} for d in (".",)]


def main():
    cmd, i = sys.argv[1], sys.argv[2]
    d = os.path.join(V, "seeded", i)
    if cmd == "new":
        clean()
        apply_text(sys.stdin.read())
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
        print(tests())
        clean()
    elif cmd == "case":      # take the demo case from the replay of a check run on the patched tree
        clean()
        assert sh("git -C /repo apply %s/patch.diff" % d).returncode == 0
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        o = sh("python3 -m vf.run %s" % prop, cwd=V)
        print(o.stdout[-2500:])
        clean()
        if o.returncode == 1:
            rep = [l for l in o.stdout.splitlines() if l.startswith("VIOLATION")][-1].split("replay=")[1]
            store(i, json.load(open(os.path.join(V, rep)))["case"])
    elif cmd == "store":     # plant.py store ID < case (system form or files/meta form)
        clean()
        store(i, json.load(sys.stdin))
    elif cmd == "try":
        clean()
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode:
            raise SystemExit(a.stdout)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        print(i, prop, tests())
        print(" demo with patch:", demo(i))
        if "--nocheck" not in sys.argv:
            o = sh("python3 -m vf.run %s" % prop, cwd=V)
            print(" check exit", o.returncode, o.stdout[-1500:])
        clean()
        sh("bash /opt/vp/build.sh")
        print(" demo without:", demo(i))


main()
