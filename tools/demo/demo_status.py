import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
BIN = os.environ.get("DEMO_BIN") or os.path.join(os.getcwd(), "build", "bin", "groot")
with open(os.path.join(HERE, "runs.json")) as f:
    RUNS = json.load(f)
for c in RUNS:
    d = tempfile.mkdtemp(prefix="demo.")
    try:
        os.mkdir(os.path.join(d, "zones"))
        for n, t in c["files"].items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        p = subprocess.run([BIN, "zones"] + c["args"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, text=True)
        what = c["name"]
        if (p.returncode == 0) != c["ok"]:
            sys.exit("%s: status %d\n%s" % (what, p.returncode, p.stdout[-800:]))
        if not c["ok"] and os.path.exists(os.path.join(d, "output.json")):
            sys.exit("%s: a report in spite of the failure" % what)
        for want in c.get("prints", []):
            if not any(want in l for l in p.stdout.splitlines()):
                sys.exit("%s: no line with %r\n%s" % (what, want, p.stdout[-1500:]))
        for line, parts in c.get("lines", {}).items():
            got = [l for l in p.stdout.splitlines() if line in l]
            if len(got) != len(parts) or not all(all(x in l for x in xs) for xs, l in zip(parts, got)):
                sys.exit("%s: %s\nexpected %s" % (what, got, parts))
    finally:
        shutil.rmtree(d, ignore_errors=True)
print("as expected")
