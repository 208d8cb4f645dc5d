"""Builds the harness programs from /repo's current working tree (content-hashed object cache)."""
import glob, hashlib, os, subprocess, sys, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BASE = ["-std=c++17", "-DNDEBUG", "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_COMPILED_LIB",
        "-DFMT_SHARED", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-w"]
MOODY = ["-I/opt/vp/include/concurrentqueue"]
SHIM = ["-I" + os.path.join(VERIF, "harness/shim/concurrentqueue")]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    # name: (compiler, compile flags, link flags, pch?)
    "fast": ("clang++", ["-O1", "-g0"] + MOODY, [], True),
    "asan": ("clang++", ["-O1", "-g1"] + SAN + MOODY, SAN, True),
    "fuzz": ("clang++", ["-O1", "-g1", "-fsanitize=fuzzer-no-link"] + SAN + MOODY, SAN, True),
    "sched": ("clang++", ["-O1", "-g0", "-DVF_SCHED"] + SHIM, ["-rdynamic"], True),
    "tsan": ("clang++", ["-O1", "-g1", "-fsanitize=thread", "-DVF_NOSCHED"] + SHIM, ["-fsanitize=thread"], True),
}
LIBS = ["-lspdlog", "-lfmt", "-lboost_filesystem", "-lboost_system", "-lpthread"]


class BuildError(Exception):
    pass


def _cache_root():
    d = os.path.join(VERIF, "build")
    try:
        os.makedirs(d, exist_ok=True)
        t = tempfile.NamedTemporaryFile(dir=d)
        t.close()
        return d
    except OSError:
        return tempfile.mkdtemp(prefix="vfbuild.")


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode("utf-8", "replace")


def _pch(root, variant, cc, flags):
    src = os.path.join(VERIF, "harness/pch.h")
    key = _h(_read(src), _read(os.path.join(VERIF, "harness/shim/vf_atomic.h")), cc, " ".join(BASE + flags))
    out = os.path.join(root, f"pch-{variant}-{key}.pch")
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}.tmp"
        rc, o = _run([cc] + BASE + flags + ["-x", "c++-header", src, "-o", tmp])
        if rc:
            return None
        os.replace(tmp, out)
    return out


def build(variant, program="worker", log=None):
    """Returns the path of the built program."""
    cc, flags, ldflags, use_pch = VARIANTS[variant]
    root = _cache_root()
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    hdrs = sorted(x for d in ("src", "bin", "concurrentqueue") for e in ("h", "hpp", "hh", "inc", "ipp")
                  for x in glob.glob(os.path.join(REPO, d, "**", "*." + e), recursive=True))
    own = {"worker": ["worker.cpp"], "cli": [], "fuzz": ["fuzz_zone.cpp"]}[program]
    own = [os.path.join(VERIF, "harness", x) for x in own]
    if variant == "sched":
        own.append(os.path.join(VERIF, "harness", "sched.cpp"))
    if variant == "tsan":
        own.append(os.path.join(VERIF, "harness", "nosched.cpp"))
    libs = list(LIBS)
    if program == "cli":
        own.append(os.path.join(REPO, "bin", "groot.cpp"))
        libs = ["-ldocopt", "-lboost_regex"] + libs
    if program == "fuzz":
        ldflags = ldflags + ["-fsanitize=fuzzer", "-Wl,--wrap=exit"]
    hkey = _h(*[os.path.relpath(x, REPO).encode() + b"\0" + _read(x) for x in hdrs],
              *[_read(x) for x in sorted(glob.glob(os.path.join(VERIF, "harness", "shim", "**", "*.h"), recursive=True))])
    objs, todo = [], []
    for s in srcs + own:
        data = _read(s)
        plain = s.endswith("harness/sched.cpp")   # the scheduler itself uses the real primitives
        if s.endswith("harness/worker.cpp") or s.endswith("fuzz_zone.cpp"):
            data = data.replace(b"../../repo/src/", os.path.join(REPO, "src").encode() + b"/")
        # program-specific sources of the fuzz variant need the same flags: object cache is shared
        key = _h(variant, os.path.basename(s), data, hkey, cc, " ".join(BASE + flags), REPO)
        o = os.path.join(root, f"{variant}-{os.path.basename(s)}-{key}.o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((s, data, o, plain))
    exe = os.path.join(root, f"{program}-{variant}-{_h(*objs, ' '.join(ldflags), ' '.join(libs))}")
    if os.path.exists(exe) and not todo:
        return exe
    pch = _pch(root, variant, cc, flags) if use_pch and todo else None

    def one(job):
        s, data, o, plain = job
        tmp = o + f".{os.getpid()}.tmp"
        src = s
        extra = []
        if s.startswith(VERIF):
            src = o + f".{os.getpid()}.src.cpp"
            with open(src, "wb") as f:
                f.write(data)
            extra = ["-I" + os.path.join(VERIF, "harness")]
        try:
            base = [cc] + BASE + flags + extra + ["-c", src, "-o", tmp]
            rc, out = _run(base[:1] + (["-include-pch", pch] if pch and not plain else []) + base[1:])
            if rc and pch and not plain:
                rc, out = _run(base)
        finally:
            if src != s:
                os.unlink(src)
        if rc:
            raise BuildError(f"compiling {s}:\n{out[-3000:]}")
        os.replace(tmp, o)

    with cf.ThreadPoolExecutor(12) as ex:
        list(ex.map(one, sorted(todo, key=lambda j: -len(j[1]))))
    tmp = exe + f".{os.getpid()}.tmp"
    rc, out = _run([cc] + ldflags + objs + ["-o", tmp] + libs)
    if rc:
        raise BuildError(f"linking {program}:\n{out[-3000:]}")
    os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    import time
    for a in sys.argv[1:]:
        v, _, p = a.partition(":")
        t = time.time()
        print(build(v, p or "worker"), round(time.time() - t, 1), "s", flush=True)
