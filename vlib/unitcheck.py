"""Base of the checks that run operation histories in harness/unit against models written here."""
from vlib import build, pbt, proc


class Mismatch(Exception):
    pass


class Words:
    """The answer, read word by word."""
    def __init__(self, text):
        self.w, self.i = text.split(), 0

    def take(self):
        if self.i >= len(self.w):
            raise Mismatch("answer: too short")
        self.i += 1
        return self.w[self.i - 1]

    def int(self):
        w = self.take()
        try:
            return int(w)
        except ValueError:
            raise Mismatch("answer: expected a number, got %r" % w)

    def expect(self, v, what):
        g = self.int()
        if g != v:
            raise Mismatch("%s: returned %d, expected %d" % (what, g, v))


class UnitCheck(pbt.Check):
    shrink_seconds = 20
    exe_fn = staticmethod(build.unit)

    def setup(self, tier):
        self.exe = self.exe_fn()

    def worker_setup(self):
        self.srv = proc.LineServer([self.exe])

    def worker_done(self):
        if getattr(self, "srv", None):
            self.srv.close()

    def line(self, case):
        raise NotImplementedError

    def judge(self, case, words, st):  # raises Mismatch; returns whether the case is non-trivial
        raise NotImplementedError

    def run(self, case):
        ans, bad = self.srv.ask(self.line(case))
        if bad:
            return pbt.Result(bad)
        st = {}
        body, _, tail = ans.rpartition("#")
        w = Words(body)
        try:
            nt = self.judge(case, w, st)
            if w.i != len(w.w):
                raise Mismatch("answer: %d words left" % (len(w.w) - w.i))
            if int(tail):
                raise Mismatch("leak: %s blocks left allocated" % tail.strip())
        except Mismatch as e:
            return pbt.Result(str(e))
        return pbt.Result(None, bool(nt), stats=st)

    def explain(self, case):
        print(self.line(case)[:4000])
