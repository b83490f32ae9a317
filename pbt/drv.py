"""Client of the driver process."""
import json, os, signal, subprocess

ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0:allocator_may_return_null=1:max_allocation_size_mb=4096:symbolize=0:quarantine_size_mb=8:malloc_context_size=3:print_legend=0",
       "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=98", "MALLOC_PERTURB_": "165", "PATH": "/usr/bin:/bin", "TZ": "UTC", "LC_ALL": "C"}


def esc(s):
    """one token of a script line"""
    if isinstance(s, int):
        return str(s)
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogateescape")
    if not s:
        return "%00"
    return "".join(chr(b) if 33 <= b < 127 and b != 37 else "%%%02X" % b for b in s)


class Result:
    __slots__ = ("status", "out", "stdout", "stderr")

    def crash(self):
        """None or a description of how the request died"""
        if self.status == 0:
            return None
        if os.WIFSIGNALED(self.status):
            sig = os.WTERMSIG(self.status)
            if sig in (signal.SIGXCPU, signal.SIGKILL):
                return "does not terminate (CPU limit of 12 s exceeded)" if sig == signal.SIGXCPU else "killed"
            return "killed by signal %d" % sig
        code = os.WEXITSTATUS(self.status)
        lines = [l for l in self.stderr.splitlines() if "ERROR" in l or "runtime error" in l or "SUMMARY" in l or "ssert" in l]
        return "exit status %d: %s" % (code, " | ".join(lines)[:600] or self.stderr[-300:])


class Driver:
    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)

    def close(self):
        if self.p:
            self.p.kill(); self.p.wait(); self.p = None

    def run(self, lines):
        """lines: list of lists of tokens"""
        script = "\n".join(" ".join(esc(t) for t in l) for l in lines).encode()
        for attempt in range(3):
            try:
                if not self.p:
                    self.start()
                w = self.p.stdin
                w.write(b"%d\n" % len(script)); w.write(script); w.flush()
                f = self.p.stdout
                h = f.readline()
                if not h:
                    raise OSError("driver gone")
                st, jn, on, en = (int(x) for x in h.split())
                j, o, e = f.read(jn), f.read(on), f.read(en)
                if st == 9 and attempt < 2:   # killed from outside (memory): try again
                    continue
                break
            except OSError:
                self.close()
                if attempt == 2:
                    raise
        r = Result()
        r.status = st
        r.stdout = o.decode("utf-8", "surrogateescape")
        r.stderr = e.decode("utf-8", "replace")
        t = j.decode("utf-8", "surrogateescape")
        if not t.endswith("]") or st != 0:
            t = t.rstrip(",")
            try:
                r.out = json.loads(t, strict=False)
            except ValueError:
                try:
                    r.out = json.loads(t + "]", strict=False)
                except ValueError:
                    r.out = []
        else:
            r.out = json.loads(t, strict=False)
        return r
