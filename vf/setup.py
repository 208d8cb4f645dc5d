"""Builds every program variant once, so that checks only rebuild what changed."""
import concurrent.futures as cf, os, sys
from . import build, run

TODO = [("fast", "worker"), ("asan", "worker"), ("sched", "worker"), ("tsan", "worker"), ("fast", "cli"), ("asan", "cli"), ("fuzz", "fuzz")]


def main():
    rc = 0
    for v, p in TODO:
        need = {"sched": "sched.cpp"}.get(v)
        if need and not os.path.exists(os.path.join(build.VERIF, "harness", need)):
            continue
        if p == "fuzz" and not os.path.exists(os.path.join(build.VERIF, "harness", "fuzz_zone.cpp")):
            continue
        if v in ("sched", "tsan") and not os.path.isdir(os.path.join(build.VERIF, "harness", "shim", "concurrentqueue")):
            continue
        try:
            print(build.build(v, p), flush=True)
        except build.BuildError as e:
            print(e)
            rc = 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
