"""C25, C26: unusable inputs, failing outputs and the statistics of the built program."""
import copy, json, os, random, re, resource, shutil, subprocess, tempfile
from collections import Counter

from . import gen as G
from .checks_input import C18, Acceptance
from .checks_model import analyse, jkey, system_of, valid_case
from .checks_system import DEFAULT, jobs_small, strict_array
from .proto import out_json
from .run import Check, Skip, Violation

SANITIZER = 99
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=%d:abort_on_error=0:handle_abort=0" % SANITIZER,
           UBSAN_OPTIONS="halt_on_error=1:exitcode=%d" % SANITIZER)
LISTS = ("ResponseValue", "QueryRewrite", "NameserverContact", "AllAliases")
OTHERS = [5, -1, 2.5, True, None, "x", "", [], {}, [5], ["x."], {"a": 1}, [[]], "true"]


def execute(exe, files, args, limit=None, timeout=60):
    """Runs the program in a scratch directory: (status, {file: bytes}, output). A file with data None is a directory, one with a text a symbolic link."""
    d = tempfile.mkdtemp(prefix="vff.")
    try:
        for name, data in files.items():
            p = os.path.join(d, name)
            os.makedirs(p if data is None else os.path.dirname(p), exist_ok=True)
            if isinstance(data, str):
                os.symlink(data, p)
            elif data is not None:
                with open(p, "wb") as f:
                    f.write(data)

        def pre():
            if limit is not None:
                # further data beyond the limit is refused (EFBIG), as the signal is ignored
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        try:
            proc = subprocess.run([exe] + args, cwd=d, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, preexec_fn=pre, restore_signals=limit is None)
        except subprocess.TimeoutExpired:
            return None, {}, b""
        out = {}
        for root, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(root, f)
                rel = os.path.relpath(p, d)
                if rel not in files or rel.endswith(".json"):
                    with open(p, "rb") as h:
                        out[rel] = h.read()
        return proc.returncode, out, proc.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -- what JSON text means ---------------------------------------------------------------------------------------

def parse(data):
    """("ok", value) | ("bad", None) | ("open", None): the leading JSON value of these bytes; open where readers may differ."""
    if data.startswith(b"\xef\xbb\xbf"):
        return "open", None
    try:
        t = data.decode("utf-8")
    except UnicodeDecodeError:
        head = data.decode("utf-8", "replace")
        try:
            _, end = json.JSONDecoder().raw_decode(head.lstrip(" \t\r\n"))
            return "open", None         # perhaps only after the value, perhaps within a string
        except ValueError:
            return "bad", None
    if "NaN" in t or "Infinity" in t or "\\ud" in t.lower() or "\x00" in t:
        return "open", None
    s = t.lstrip(" \t\r\n")
    try:
        v, end = json.JSONDecoder(object_pairs_hook=pairs).raw_decode(s)
    except Twice:
        return "open", None
    except (ValueError, RecursionError):
        return "bad", None
    if s[end:].strip(" \t\r\n"):
        return "open", None             # something follows the value
    return "ok", v


class Twice(Exception):
    pass


def pairs(p):
    if len({k for k, _ in p}) != len(p):
        raise Twice
    return dict(p)


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def jobs_unusable(v):
    """Whether some job certainly cannot be processed."""
    if not isinstance(v, list):
        return False
    for j in v:
        if not isinstance(j, dict) or not isinstance(j.get("Domain"), str) or not isinstance(j.get("SubDomain"), bool) or "Properties" not in j:
            return True
        for p in j["Properties"] if isinstance(j["Properties"], list) else []:
            if not isinstance(p, dict) or not isinstance(p.get("PropertyName"), str):
                return True
            n = p["PropertyName"]
            if n in ("Hops", "Rewrites") and not isinstance(p.get("Value"), (int, float)):
                return True
            if n in LISTS and ("Value" not in p or isinstance(p["Value"], list) and any(not isinstance(x, str) for x in p["Value"])):
                return True
    return False


def meta_unusable(v):
    if not isinstance(v, dict) or "TopNameServers" not in v or "ZoneFiles" not in v:
        return True
    t, z = v["TopNameServers"], v["ZoneFiles"]
    if t is None or t == [] or isinstance(t, list) and any(not isinstance(x, str) for x in t):
        return True
    if not isinstance(z, (list, dict)) or not z:
        return True
    return isinstance(z, list) and any(not isinstance(x, dict) or not isinstance(x.get("FileName"), str) or not isinstance(x.get("NameServer"), str)
                                       for x in z)


def spots(v, path=()):
    """The places in a JSON value."""
    out = [list(path)] if path else []
    if isinstance(v, dict):
        for k in sorted(v):
            out += spots(v[k], path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            out += spots(x, path + (i,))
    return out


def at(v, path):
    for k in path:
        v = v[k]
    return v


def change(v, fault):
    """v with the place fault["path"] removed or replaced; None when there is no such place."""
    v = copy.deepcopy(v)
    try:
        o = at(v, fault["path"][:-1])
        if fault["how"] == "del":
            del o[fault["path"][-1]]
        else:
            o[fault["path"][-1]]
            o[fault["path"][-1]] = fault["value"]
    except (LookupError, TypeError):
        return None
    return v


def escaped(r, s):
    """A string in JSON, with some characters escaped."""
    out = '"'
    for c in s:
        if c in '"\\' or ord(c) < 32:
            out += json.dumps(c)[1:-1] if r.random() < 0.5 else "\\u%04x" % ord(c)
        elif r.random() < 0.06 and ord(c) < 0x10000:
            out += "\\u%04x" % ord(c) if r.random() < 0.5 else "\\u%04X" % ord(c)
        elif c == "/" and r.random() < 0.3:
            out += "\\/"
        else:
            out += c
    return out + '"'


def dress(r, v):
    """Some JSON text for the value."""
    w = lambda: r.choice(["", "", " ", "\n", "\t", "\r\n  "])
    if isinstance(v, dict):
        ks = list(v)
        r.shuffle(ks)
        return "{" + w() + (w() + "," + w()).join(escaped(r, k) + w() + ":" + w() + dress(r, v[k]) for k in ks) + w() + "}"
    if isinstance(v, list):
        return "[" + w() + (w() + "," + w()).join(dress(r, x) for x in v) + w() + "]"
    if isinstance(v, str):
        return escaped(r, v)
    return json.dumps(v)


class C25(Check):
    id = "C25"
    programs = [("fast", "worker"), ("fast", "cli"), ("asan", "cli")]
    rule = ("the built program on generated zone directories and jobs with one fault: jobs or metadata file missing, empty, a directory, cut off, "
            "edited at random bytes, with a field removed or of another kind, or (no fault) in another JSON notation; an output path "
            "that cannot be opened, a zone file that is missing or a directory, a write limit below the size of the report; wrong arguments; half of the runs under ASan/UBSan; "
            "non-trivial: the fault makes the run impossible, or the report of a dressed-up input has a finding")
    n_quick, n_thorough = 1600, 30000
    K = G.knobs(children=(0, 0, 1, 1, 2), servers=(1, 1, 2), ttls=(0, 300), recs=(1, 2, 3))

    def gen(self, r, i):
        case = G.gen_system(r, self.K)
        case.pop("_names")
        if not valid_case(case):
            return None
        jobs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            j = G.gen_job(r, case, r.choice([n for n in G.ALLPROPS if n != "StructuralDelegationConsistency"]), 0.6)
            if r.random() < 0.5:
                j["Properties"] += [{"PropertyName": "Hops", "Value": 0}]
            jobs.append(j)
        if not jobs_small(case, jobs):
            return None
        case["jobs"] = jobs
        case["asan"] = r.random() < 0.4
        case["stale"] = r.random() < 0.4
        case["name"] = r.choice(["", "", "", "r.json", "o" * 130 + ".json", "zones/out put.json"])
        case["opts"] = r.sample(["-s", "-l", "-v", "--lint"], r.choice([0, 0, 0, 1, 2]))
        case["dress"] = r.randint(1, 1 << 30) if r.random() < 0.6 else 0
        x = r.random()
        if x < 0.15:
            case["fault"] = None
        elif x < 0.75:
            where = r.choice(["jobs", "jobs", "jobs", "meta", "meta"])
            how = r.choice(["missing", "dir", "empty", "cut", "cut", "edit", "edit", "del", "del", "del", "set", "set", "set"])
            f = {"where": where, "how": how}
            v = jobs if where == "jobs" else self.meta(case)
            if how == "cut":
                f["at"] = r.random() if r.random() < 0.7 else r.choice([-1, -2, -3])
            elif how == "edit":
                f["edits"] = [[r.random(), r.choice([0, 1, 1, 2, 8]), r.choice(["", '"', "{", "]", ",", ":", "\\", "\x00", "\xff", "x", "9", "null", "\n", "[", "}"])]
                              for _ in range(r.choice([1, 1, 2]))]
            elif how in ("del", "set"):
                s = [p for p in spots(v)]
                named = [p for p in s if isinstance(p[-1], str)]
                f["path"] = r.choice(named if named and r.random() < 0.8 else s)
                if how == "set":
                    f["value"] = r.choice(OTHERS)
            case["fault"] = f
        elif x < 0.8:
            case["fault"] = {"where": "aside", "how": r.choice(["log", "lint"])} if r.random() < 0.4 else {
                "where": "zone", "how": r.choice(["", ".", "sub", "sub/", "gone", "dangling"]), "at": r.randrange(len(case["zones"]))}
        elif x < 0.95:
            f = {"where": "out", "how": r.choice(["nodir", "isdir", "filedir", "limit", "limit", "limit"])}
            if f["how"] == "limit":
                f["at"] = r.choice([0, r.random(), r.random(), 0.999999])
            case["fault"] = f
        else:
            case["fault"] = {"where": "args", "how": r.choice(["none", "unknown", "extra", "nodir"])}
        return case

    def valid(self, case):
        f = case["fault"]
        if f and f["where"] in ("jobs", "meta") and f["how"] in ("del", "set"):
            if not f["path"] or change(case["jobs"] if f["where"] == "jobs" else self.meta(case), f) is None:
                return False
        if f and f["where"] == "zone" and f["at"] >= len(case["zones"]):
            return False
        return bool(case["jobs"]) and valid_case(case) and jobs_small(case, case["jobs"])

    def droppable(self, path):
        return path[-1] in ("zones", "recs", "tops", "jobs", "Properties", "Value", "Types", "opts", "edits") and "fault" not in path[:-1]

    def _plainer(case):
        for k, v in (("dress", 0), ("stale", False), ("asan", False), ("opts", [])):
            if case[k] != v:
                yield dict(copy.deepcopy(case), **{k: v})
    simplify = (_plainer,)

    def meta(self, case):
        return {"TopNameServers": list(case["tops"]), "ZoneFiles": [{"FileName": z["file"], "NameServer": z["ns"]} for z in case["zones"]]}

    def run(self, env, case):
        f = case["fault"] or {"where": None, "how": None}
        r = random.Random(case["dress"])
        w = (lambda v: dress(r, v)) if case["dress"] else json.dumps
        meta, jobs = self.meta(case), case["jobs"]
        if f["where"] == "zone":
            meta["ZoneFiles"][f["at"]]["FileName"] = f["how"]
        texts, verdict = {}, {}
        for name, v in (("meta", meta), ("jobs", jobs)):
            if f["where"] == name and f["how"] in ("del", "set"):
                v = change(v, f)
            t = w(v).encode("utf-8")
            if f["where"] == name and f["how"] == "cut":
                t = t[:int(f["at"] * len(t)) if f["at"] >= 0 else f["at"]]
            elif f["where"] == name and f["how"] == "empty":
                t = b""
            elif f["where"] == name and f["how"] == "edit":
                for p, n, ins in f["edits"]:
                    k = int(p * len(t))
                    t = t[:k] + ins.encode("latin-1") + t[k + n:]
            texts[name] = t
            if f["where"] == name:
                if f["how"] in ("missing", "dir"):
                    verdict[name] = "bad"
                else:
                    k, v = parse(t)
                    if k == "ok":
                        k = "same" if same(v, meta if name == "meta" else jobs) else (
                            "bad" if (meta_unusable if name == "meta" else jobs_unusable)(v) else "open")
                    verdict[name] = k
        expect = next(iter(verdict.values()), "same")
        files = {"zones/" + z["file"]: G.render_zone(z).encode("latin-1") for z in case["zones"]}
        files["zones/metadata.json"] = texts["meta"]
        files["jobs.json"] = texts["jobs"]
        for name, p in (("meta", "zones/metadata.json"), ("jobs", "jobs.json")):
            if f["where"] == name and f["how"] == "missing":
                del files[p]
            elif f["where"] == name and f["how"] == "dir":
                files[p] = None
        out = "output.json"
        args = ["zones", "--jobs=jobs.json"] + case["opts"]
        if case.get("name") and f["where"] != "out":
            out = case["name"]
            args.append("--output=" + out)
        limit = None
        stale = b'[\n{"stale": 1}\n]'
        if case["stale"]:
            files[out] = stale
        ref = None
        if expect == "same":
            ref = env.run(G.render(case, jobs=jobs))
            want = sorted(map(jkey, out_json(ref["out"])))
        if f["where"] == "out":
            expect = "bad"
            if f["how"] == "nodir":
                args.append("--output=nowhere/r.json")
            elif f["how"] == "isdir":
                args.append("--output=zones")
            elif f["how"] == "filedir":
                args.append("--output=jobs.json/r.json")
            else:
                limit = min(int(f["at"] * len(ref["out"].encode("utf-8"))), len(ref["out"].encode("utf-8")) - 1)
                args = args[:2]     # no other files
                case = dict(case, asan=False)
        elif f["where"] == "zone":
            expect = "bad"
            files["zones/sub"] = None
            if f["how"] == "dangling":
                files["zones/dangling"] = "nowhere"
        elif f["where"] == "aside":
            # the log or lint file cannot be written: either is fine, but a report has to be the right one
            files[f["how"] + (".txt" if f["how"] == "log" else ".json")] = None
            args += ["-l", "--lint"] if "-l" not in args and "--lint" not in args else []
        elif f["where"] == "args":
            expect = "bad"
            args = {"none": [], "unknown": args + ["--bogus"], "extra": args + ["more"], "nodir": ["no-zones"] + args[1:]}[f["how"]]
        feats = ["%s:%s" % (f["where"] or "no", f["how"] or "fault"), "expect:" + expect] + (["sanitized"] if case["asan"] else [])
        rc, got, txt = execute(env.exes[("asan" if case["asan"] else "fast", "cli")], files, args, limit)
        what = "%s (%s)" % (json.dumps(f), texts.get(f["where"], b"")[:300].decode("latin-1"))
        if rc is None:
            if expect == "open":
                raise Skip
            raise Violation("the program does not end: " + what)
        tail = txt[-1500:].decode("latin-1")
        if rc == SANITIZER:
            raise Violation("the sanitizer stops the program: %s\n%s" % (what, txt[-3000:].decode("latin-1")))
        if rc < 0:
            raise Violation("the program is ended by signal %d: %s\n%s" % (-rc, what, tail))
        if expect == "bad" and rc == 0:
            raise Violation("the program ends with status 0: %s\n%s" % (what, tail))
        if expect == "same" and rc != 0 and f["where"] != "aside":
            raise Violation("the program ends with status %d for usable input: %s\n%s" % (rc, what, tail))
        report = got.get(out)
        if rc == 0:
            if report is None or (case["stale"] and report == stale):
                raise Violation("status 0 without a report: %s\n%s" % (what, tail))
            keys = sorted(map(jkey, strict_array(report, "the report")))
            if expect == "same" and keys != want:
                raise Violation("the report differs from that of the same input: %s\n missing %s\n additional %s" % (
                    what, list((Counter(want) - Counter(keys)).elements())[:2], list((Counter(keys) - Counter(want)).elements())[:2]))
        elif f["where"] in ("jobs", "meta", "args", "zone"):
            if case["stale"] and report != stale or not case["stale"] and report is not None:
                raise Violation("status %d, yet the report file is written: %s" % (rc, what))
        return expect == "bad" or expect == "same" and len(want) > 0, feats


# -- C26 --------------------------------------------------------------------------------------------------------

NUM = r"(-?[0-9.]+(?:e[+-]?[0-9]+)?|-?inf|-?nan)"
LINES = {
    "records": r"Total number of RRs parsed across all zone files: (\d+)\s*$",
    "types": r"RR Stats: (.*?)\s*$",
    "job": r"Started (?:default )?property checking for the job(?:- (\S+))?\s*$",
    "queries": r"Number of ECs: (\d+)\s*$",
    "nodes": r"Interpretation Graph Vertices: Max=%s, Min=%s, Mean=%s, Median=%s\s*$" % ((NUM,) * 4),
    "steps": r"Interpretation Graph Edges: Max=%s, Min=%s, Mean=%s, Median=%s\s*$" % ((NUM,) * 4),
    "total": r"Total number of ECs across all jobs: (\d+)\s*$",
    "violations": r"Total number of violations: (\d+)\s*$",
}
LINES = {k: re.compile(v) for k, v in LINES.items()}


def statistics(text_):
    """[(kind, values)] of the statistics lines, in order."""
    out = []
    for l in text_.splitlines():
        for k, x in LINES.items():
            m = x.search(l)
            if m:
                out.append((k, m.groups()))
    return out


class C26(Check):
    id = "C26"
    programs = [("fast", "cli")]
    rule = ("the built program with -s, -l and -v in all combinations on random systems with 1-4 jobs or without a jobs file; every figure "
            "printed or logged (records, accepted ones per type, excluded ones per reason, queries, size of the resolution graphs, totals, findings) is compared with the "
            "reference model and the report; non-trivial: more than two queries, and graphs of different sizes")
    n_quick, n_thorough = 2000, 40000
    K = G.knobs(children=(0, 0, 1, 1, 2), ttls=(0, 300))

    def gen(self, r, i):
        case = G.gen_system(r, self.K)
        case.pop("_names")
        if not valid_case(case):
            return None
        jobs = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            jobs.append(G.gen_job(r, case, r.choice([n for n in G.ALLPROPS if n != "StructuralDelegationConsistency"]), 0.6))
        if r.random() < 0.2:
            jobs.append(copy.deepcopy(r.choice(jobs)))
        if r.random() < 0.2:
            jobs = None
        if not jobs_small(case, jobs or [DEFAULT]):
            return None
        case["jobs"] = jobs
        case["opts"] = [o for o, p in (("-s", 0.85), ("-l", 0.4), ("-v", 0.3)) if r.random() < p]
        for z in case["zones"]:
            # records that are not accepted, at the end of the file
            z["more"] = []
            for _ in range(r.choice([0, 0, 1, 2, 4]) if r.random() < 0.6 else 0):
                it = C18.bad(C18.__new__(C18), r, z["origin"], z["recs"]) if r.random() < 0.9 else None
                if it and it["k"] == "rec" and self.refused(dict(z, more=[it["rec"]])) is not None:
                    z["more"].append(it["rec"])
        return case

    def refused(self, z):
        """Counts of the records of a file, None unless exactly those in "more" are excluded."""
        a = Acceptance(z["origin"])
        for x in z["recs"]:
            a.add(x, 0)
        n = len(a.kept)
        for x in z["more"]:
            a.add(x, 0)
            if any(x[:2] == y[:2] and x[3] == y[3] and x[2] != y[2] for y in z["recs"]):
                return None
        return a if n == len(z["recs"]) == len(a.kept) else None

    def valid(self, case):
        return all(self.refused(z) is not None for z in case["zones"]) and case["jobs"] != [] and valid_case(dict(case, jobs=case["jobs"] or [])) and jobs_small(case, case["jobs"] or [DEFAULT])

    def droppable(self, path):
        return path[-1] in ("zones", "recs", "tops", "jobs", "Properties", "Value", "Types", "opts", "more")

    def run(self, env, case):
        jobs = case["jobs"] or [DEFAULT]
        files = {"zones/" + z["file"]: (G.render_zone(z) + G.render_zone({"recs": z["more"]})).encode("latin-1") for z in case["zones"]}
        files["zones/metadata.json"] = json.dumps(C25.meta(self, case)).encode()
        args = ["zones"] + case["opts"]
        if case["jobs"]:
            files["jobs.json"] = json.dumps(jobs).encode()
            args.append("--jobs=jobs.json")
        rc, got, txt = execute(env.exes[("fast", "cli")], files, args)
        if rc is None:
            raise Skip
        if rc != 0 or "output.json" not in got:
            raise Violation("the program ends with status %s without a report" % rc)
        n = len(strict_array(got["output.json"], "the report"))
        s = system_of(case)
        records = sum(len(z["recs"]) + len(z["more"]) for z in case["zones"])
        types = sum((self.refused(z).counts for z in case["zones"]), Counter())
        exact = "DNAME" not in types        # the same query may be examined again through a DNAME
        total, sizes = 0, set()
        per_job = []
        for j in jobs:
            an, _ = analyse(s, j)
            nodes = [len(res.list) for _, res, _, _ in an]
            steps = [sum(len(x.out) for x in res.list) for _, res, _, _ in an]
            total += len(an)
            sizes |= set(nodes)
            per_job.append((len(an), nodes, steps))
        printed = statistics(txt.decode("latin-1"))
        if "-s" not in case["opts"] and printed:
            raise Violation("statistics are printed without -s: %s" % printed[:2])
        logged = None
        if "-l" in case["opts"]:
            if "log.txt" not in got:
                raise Violation("no log.txt with -l")
            logged = statistics(got["log.txt"].decode("latin-1"))
        elif "log.txt" in got:
            raise Violation("log.txt is written without -l")
        for where, st in (("printed", printed if "-s" in case["opts"] else None), ("logged", logged)):
            if st is None:
                continue

            def bad(what, a, b):
                raise Violation("%s: %s %s, expected %s\n%s" % (where, what, a, b, st))
            one = {k: [v for x, v in st if x == k] for k in LINES}
            have = [int(x[0]) for x in one["queries"]]
            for k, v in (("records", records), ("total", sum(have)), ("violations", n)):
                if [x[0] for x in one[k]] != [str(v)]:
                    bad(k, one[k], v)
            if len(one["types"]) != 1:
                bad("types", one["types"], dict(types))
            t = dict(x.strip().rsplit(":", 1) for x in one["types"][0][0].split(",") if x.strip())
            if {k: int(v) for k, v in t.items() if v != "0"} != dict(types):
                bad("records per type", t, dict(types))
            if case["jobs"] and [x[0] for x in one["job"]] != [j["Domain"] for j in jobs]:
                bad("jobs", one["job"], [j["Domain"] for j in jobs])
            need = [x[0] for x in per_job]
            if have != need and (exact or len(have) != len(need) or any(a < b for a, b in zip(have, need))):
                bad("number of queries", have, need)
            for k, i in (("nodes", 1), ("steps", 2)):
                if len(one[k]) != len(jobs):
                    bad(k, one[k], "%d lines" % len(jobs))
                for x, pj in zip(one[k], per_job):
                    v = pj[i]
                    if not v:
                        continue
                    if not exact and min(v) <= float(x[2]) <= max(v):
                        x = (x[0], x[1], sum(v) / len(v), x[3])
                    if any(abs(float(a) - b) > 1e-9 * max(1, b) for a, b in zip(x, (max(v), min(v), sum(v) / len(v)))):
                        bad(k + " max, min, mean", x[:3], (max(v), min(v), sum(v) / len(v)))
        return total > 2 and len(sizes) > 1, ["opts:" + "".join(sorted(o[1] for o in case["opts"])), "default job" if case["jobs"] is None else "jobs:%d" % len(jobs),
                                              *(["excluded records"] if any(z["more"] for z in case["zones"]) else []),
                                              "findings" if n else "no finding"]


CHECKS = {"C25": C25, "C26": C26}
