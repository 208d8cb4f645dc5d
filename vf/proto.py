"""Client of the worker program."""
import json, os, subprocess, tempfile, shutil, sys


class Worker:
    def __init__(self, exe, recycle=400, env=None):
        self.exe, self.recycle, self.env = exe, recycle, env
        self.dir = tempfile.mkdtemp(prefix="vfw.")
        self.p, self.n = None, 0

    def _start(self):
        e = dict(os.environ)
        e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
                  "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
                  "TSAN_OPTIONS": "exitcode=97:halt_on_error=0:report_signal_unsafe=0"})
        e.update(self.env or {})
        self.p = subprocess.Popen([self.exe, self.dir], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=e)
        self.n = 0

    def run(self, case):
        if self.p is None or self.n >= self.recycle:
            self.stop()
            self._start()
        self.n += 1
        try:
            self.p.stdin.write(json.dumps(case).encode() + b"\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = b""
        if not line:
            self.stop()
            raise RuntimeError("worker ended unexpectedly")
        return json.loads(line)

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(30)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p.stdout.close()
            self.p = None

    def close(self):
        self.stop()
        shutil.rmtree(self.dir, ignore_errors=True)


def out_json(s):
    return json.loads(s, strict=False)
