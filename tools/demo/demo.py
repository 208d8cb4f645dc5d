import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
BIN = os.environ.get("DEMO_BIN") or os.path.join(os.getcwd(), "build", "bin", "groot")


def canon(x):
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()}
    if isinstance(x, list):
        return sorted((canon(v) for v in x), key=lambda v: json.dumps(v, sort_keys=True))
    return x


def execute(c):
    d = tempfile.mkdtemp(prefix="demo.")
    try:
        z = os.path.join(d, "zones")
        os.mkdir(z)
        for n, t in c["files"].items():
            with open(os.path.join(z, n), "wb") as f:
                f.write(t.encode("latin-1"))
        with open(os.path.join(z, "metadata.json"), "w") as f:
            json.dump(c["meta"], f)
        args = [BIN, "zones", "--output=out.json"]
        if c.get("jobs") is not None:
            with open(os.path.join(d, "jobs.json"), "w") as f:
                json.dump(c["jobs"], f)
            args.insert(2, "--jobs=jobs.json")
        if c.get("lint"):
            args.append("--lint")
        if c.get("counts"):
            args.append("-s")
        p = subprocess.run(args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        res = {"status": p.returncode}
        if c.get("counts"):
            res["counts"] = [int(n) for n in re.findall(rb"Number of ECs: (\d+)", p.stdout)]
        for k, f in (("report", "out.json"), ("lint", "lint.json")):
            f = os.path.join(d, f)
            if os.path.exists(f) and (k == "report" or c.get("lint")):
                with open(f, encoding="utf-8", errors="replace") as h:
                    res[k] = canon(json.load(h, strict=False))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    with open(os.path.join(HERE, "case.json")) as f:
        c = json.load(f)
    for _ in range(c.get("repeat", 1)):
        got = execute(c)
        if got != c["expect"]:
            print("got     ", json.dumps(got)[:2000])
            print("expected", json.dumps(c["expect"])[:2000])
            sys.exit(1)
    print("as expected")


if __name__ == "__main__":
    main()
