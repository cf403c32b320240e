"""A persistent process that answers each line of input with one line of output; a crash is an answer too."""
import os, select, signal, subprocess, tempfile

ASAN = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1"
UBSAN = "print_stacktrace=0:exitcode=98:halt_on_error=1"


class LineServer:
    def __init__(self, argv, timeout=60, env=None):
        self.argv, self.timeout, self.p = argv, timeout, None
        self.env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN, **(env or {}))

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, bufsize=0,
                                  env=self.env, start_new_session=True)

    def ask(self, line):
        """(answer, None) or (None, what happened)."""
        if self.p is None:
            self.start()
        data = (line + "\n").encode()
        try:
            fi, fo = self.p.stdin.fileno(), self.p.stdout.fileno()
            pos = 0
            buf = bytearray()
            while pos < len(data):
                _, w, _ = select.select([], [fi], [], self.timeout)
                if not w:
                    return None, self.end("hang: input is not read")
                pos += os.write(fi, data[pos:pos + 60000])
            while True:
                r, _, _ = select.select([fo], [], [], self.timeout)
                if not r:
                    return None, self.end("hang: no answer after %d s" % self.timeout)
                k = os.read(fo, 1 << 16)
                if not k:
                    return None, self.end()
                buf += k
                if buf[-1] == 10:
                    return buf[:-1].decode(errors="replace"), None
        except BrokenPipeError:
            return None, self.end()

    def end(self, what=None):
        p, self.p = self.p, None
        if what:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
        code = p.wait()
        self.err.seek(0)
        err = self.err.read().decode(errors="replace")
        self.err.close()
        if what:
            return what
        for l in err.split("\n"):
            if "ERROR: AddressSanitizer" in l or "runtime error" in l or "Assertion" in l or "HARNESS" in l:
                i = l.find("AddressSanitizer")
                if i >= 0:
                    return "crash: " + " ".join(l[i:].split()[:2])
                i = l.find("runtime error")
                if i >= 0:
                    return "crash: " + l[i:].split("0x")[0][:160]
                return "crash: " + l[-160:]
        return "crash: exit status %d %s" % (code, err[-200:].replace("\n", " "))

    def close(self):
        if self.p:
            self.end("closed")
