"""F11: clock synchronisation estimates and applies the offset exactly as specified, whatever the delays, drifts and losses."""
from fractions import Fraction as Fr
from math import isqrt
from vlib import build, pbt, proc, unitcheck
from vlib.unitcheck import Mismatch

TECH = "model"
T1, T3, T4, PROBE = 19, 20, 21, 22
GUARD = 100000
NEVER, FOREVER = -2**63, 2**63 - 1
VARIANTS = [(3, 10, 10), (3, 4, 3), (2, 7, 10), (1, 10, 10)]


class C(unitcheck.UnitCheck):
    id = "F11"
    rule = ("a history with a complete window of exchanges that has to change the offset, and with either a window or an exchange that has to be rejected or lost, or delays and clocks that "
            "differ between exchanges")
    quick = dict(n=10**9, seconds=45)
    thorough = dict(n=10**9, seconds=300)

    def setup(self, tier):
        self.exe = [build.csync(*v) for v in VARIANTS]

    def worker_setup(self):
        self.srv = [proc.LineServer([e]) for e in self.exe]

    def worker_done(self):
        for s in getattr(self, "srv", []):
            s.close()

    # ---- generator: a history of the RTI's clock (the true time), the federate's clock (theta ahead), and the network
    def gen(self, d, i):
        v = d.weighted([(4, 0), (6, 1), (2, 2), (1, 3)])
        mode, n, att = VARIANTS[v]
        c = dict(v=v, id=d.pick([0, 1, 5, 300, 65535]), bias=d.pick([0, 0, d.int(-10**6, 10**6), d.int(-10**11, 10**11)]), now=d.pick([10**18, 10**6, 1700000000 * 10**9 + d.below(10**9)]))
        self.th = c["theta"] = d.pick([0, d.int(-1000, 1000), d.int(-10**7, 10**7), d.int(-10**12, 10**12)])
        self.style = d.below(4)        # of delays: constant, small jitter, jitter about the guard band, wild
        self.base = (d.pick([1000, 50000, 10**6, 2 * 10**7]), d.pick([1000, 50000, 10**6, 2 * 10**7]))
        self.drift = d.pick([0, 0, 100, 10**5])
        self.wild = d.chance(1, 10)    # the RTI's clock is not even consistent
        self.t = c["now"]
        c["init"] = c["run"] = None
        if mode >= 2 and d.chance(3, 4):
            c["init"] = self.initial(d, n)
        if mode < 3:
            if mode == 1 or d.chance(1, 2):
                c["run"] = dict(rx=[], wr=[])
        elif c["init"] is None or d.chance(3, 4):
            c["run"] = self.running(d, d.pick([n, 2 * n, n + 2, 3 * n, d.size(1, 4 * n)]))
        c["conv"] = [d.pick([NEVER, FOREVER, NEVER + 1, FOREVER - 1, FOREVER - d.below(10**12), NEVER + 1 + d.below(10**12), 0, c["now"] + d.below(10**9)]) for _ in range(d.below(4))]
        return c

    def delay(self, d, k):
        b = self.base[k]
        if self.style == 0:
            return b
        if self.style == 1:
            return b + d.below(2000)
        if self.style == 2:
            return b + d.pick([0, 0, 0, d.below(200000), d.below(500000)])
        return b + d.pick([0, d.below(10**6), d.below(10**8), 10**10 if d.chance(1, 8) else 0])

    def arrive(self, d, rx, gap, typ, val, again=0):
        if self.drift:
            self.th += d.int(-self.drift, self.drift)
        self.t += gap
        rx.append([gap, self.th, again, typ, val])

    def idle(self, d):
        return d.pick([0, 1000, 10**6, 10**7])

    def hiccup(self, d):
        return d.pick([0, 0, 0, 0, 1, 3, -1])

    def rti(self, d, t):
        return t + d.int(-10**9, 10**9) if self.wild else t

    def initial(self, d, n):
        rx, wr = [], []
        for _ in range(n):
            g = self.idle(d)
            t1 = self.rti(d, self.t + g)
            self.arrive(d, rx, g + self.delay(d, 0), T1, t1, self.hiccup(d))
            w = d.pick([0, 500, 10000, d.below(10**6)])
            wr.append([w, 0, int(d.chance(1, 10))])
            self.t += w
            up = self.delay(d, 1) + d.below(3000)
            t4 = self.rti(d, self.t + up)
            self.arrive(d, rx, up + self.delay(d, 0), T4, t4, self.hiccup(d))
        return dict(rx=rx, wr=wr)

    def running(self, d, rounds):
        rx, wr = [], []
        lossy = d.pick([0, 0, 8, 3])
        for _ in range(rounds):
            fault = d.below(8) if lossy and d.chance(1, lossy) else -1
            g = self.idle(d)
            if fault == 0:              # T1 lost
                self.t += g
                continue
            for _ in range(2 if fault == 1 else 1):     # duplicated
                t1 = self.rti(d, self.t + g)
                self.arrive(d, rx, g + self.delay(d, 0), T1, t1, self.hiccup(d))
                w = d.pick([0, 500, 10000, d.below(10**6)])
                bad = int(fault == 2)
                wr.append([w, bad, 0])
                self.t += w
            if fault in (2, 3):         # T3 not sent, or lost
                continue
            up = self.delay(d, 1) + d.below(3000)
            t4 = self.rti(d, self.t + up)
            down = self.delay(d, 0)
            if fault != 4:
                self.arrive(d, rx, up + down, T4, t4, self.hiccup(d))
                if fault == 7:
                    self.arrive(d, rx, 0, T4, t4)
            p = d.pick([0, 200, 5000, d.below(10**6)])
            t5 = t4 + p
            j = d.pick([0, d.below(1000), 99999, 100001, -99999, -100001, d.int(-99999, 99999), 10**6, 0, 0, 0] if d.chance(1, 3) else [d.below(1000), 0])
            if fault == 5:
                continue
            gap = p + j
            if gap < 0:
                t5 -= gap               # the probe came late from the RTI's point of view
                gap = 0
            self.arrive(d, rx, gap, d.pick([0, 23, 10, T1]) if fault == 6 else PROBE, t5, self.hiccup(d))
        return dict(rx=rx, wr=wr)

    def line(self, c):
        x = [c["id"], c["bias"], c["now"], c["theta"], (1 if c["init"] else 0) + (2 if c["run"] else 0)]
        for p in (c["init"], c["run"]):
            if p:
                x.append(len(p["rx"]))
                for g, th, again, typ, val in p["rx"]:
                    x += [g, th, again, 9, typ, val]
                x.append(len(p["wr"]))
                for w in p["wr"]:
                    x += w
        return " ".join(map(str, x + [len(c["conv"])] + c["conv"]))

    def run(self, case):
        ans, bad = self.srv[case["v"]].ask(self.line(case))
        if bad:
            return pbt.Result(bad)
        st = {}
        try:
            nt = self.judge(case, unitcheck.Words(ans), st)
        except Mismatch as e:
            return pbt.Result(str(e))
        return pbt.Result(None, nt, stats=st)

    # ---- the reference
    def judge(self, c, w, st):
        mode, n, att = VARIANTS[c["v"]]
        self.w, self.st, self.n, self.att = w, st, n, att
        self.word("port", "the port")
        w.expect({1: 65535, 2: 0, 3: 17042}[mode], "the UDP port to report to the RTI")
        self.off, self.bias, self.t, self.th = 0, c["bias"] if mode > 1 else 0, c["now"], c["theta"]
        self.t3 = "%02x" % T3 + (c["id"] & 0xffffffff).to_bytes(4, "little").hex()
        self.win = []
        self.expect = None
        self.changes = self.rejected = 0
        if c["init"]:
            self.phase(c["init"], False)
        if c["run"]:
            if mode == 3:
                self.phase(c["run"], True)
            else:
                self.word("u", "the end")
                w.expect(self.off + self.bias, "the offset at the end")
                w.int(), w.int(), w.int()
        for a in c["conv"]:
            o = self.off + self.bias
            for s in (1, -1):
                w.expect(a if a in (NEVER, FOREVER) else max(NEVER, min(FOREVER, a + s * o)), "%s the offset %d, %d" % ("adding" if s > 0 else "subtracting", o, a))
        self.word("end", "the end")
        kinds = {tuple(r[3:4]) + (r[0],) for p in (c["init"], c["run"]) if p for r in p["rx"]}
        return self.changes > 0 and (self.rejected > 0 or len(kinds) > 4)

    def word(self, v, what):
        g = self.w.take()
        if g != v:
            raise Mismatch("clock: %s: %s instead of %s" % (what, g, v))

    def offset(self, g):
        """The offset observed is g; compare with what was last expected."""
        g -= self.bias
        e, self.expect = self.expect, None
        if e is None:
            if g != self.off:
                raise Mismatch("clock: the offset changed from %d to %d when no adjustment was due" % (self.off, g))
            return
        lo, hi = e
        if not (any(l <= g <= h for l, h in zip(lo, hi))):
            raise Mismatch("clock: the offset becomes %d after a window of %d exchanges, expected %s" % (
                g, self.n, " or ".join("%d..%d" % (float(l), float(h)) for l, h in zip(lo, hi))))
        self.st["windows"] = self.st.get("windows", 0) + 1
        if g != self.off:
            self.changes += 1
        self.off = g

    def local(self):
        return self.t + self.th + self.off + self.bias

    def phase(self, p, udp):
        w = self.w
        rx, wr, fd = list(p["rx"]), list(p["wr"]), "w1001" if udp else "w1000"
        k = 0
        self.win = []

        def nxt():
            """The next message as the federate receives it, or None at the end."""
            nonlocal k
            if k >= len(rx):
                return None
            self.word("o", "the offset before a message")
            self.offset(w.int())
            g, self.th, _, typ, val = rx[k]
            self.t += g
            k += 1
            return typ, val, self.local()

        def reply():
            g, bad, short = wr[nw[0]] if nw[0] < len(wr) else (0, 0, 0)
            nw[0] += 1
            self.t += g
            if bad:
                return False
            self.word(fd, "the reply T3")
            got = w.take()
            if short and not udp:
                self.word(fd, "the rest of the reply T3")
                got += w.take()
            if got != self.t3:
                raise Mismatch("clock: the reply T3 is %s, expected %s" % (got, self.t3))
            return True
        nw = [0]
        waiting1 = True
        while True:
            m = nxt()
            if m is None:
                break
            typ, val, at = m
            if waiting1:
                if typ == T1 and reply():
                    t1, t2, t3 = val, at, self.local()
                    waiting1 = False
                continue
            waiting1 = True
            if typ != T4:
                self.rejected += 1
                continue
            if udp:
                m = nxt()
                if m is None or m[0] != PROBE:
                    self.rejected += 1
                    self.st["lost probes"] = self.st.get("lost probes", 0) + 1
                    continue
                if abs((m[2] - at) - (m[1] - val)) >= GUARD:
                    self.rejected += 1
                    self.st["impure probes"] = self.st.get("impure probes", 0) + 1
                    continue
            rt = (val - t1) - (t3 - t2)
            err = Fr(rt, 2) - (t2 - t1)
            self.win.append((rt, err / self.att if udp else err))
            if len(self.win) == self.n:
                self.window()
        self.word("u" if udp else "i", "the end of the phase")
        self.offset(w.int())
        w.expect(k, "messages read")
        w.int()
        if udp:
            g = w.int()
            if any(r[3] == T1 for r in rx) and g != 15045:
                raise Mismatch("clock: T3 is sent to port %d instead of the RTI's" % g)

    def window(self):
        rts = [r for r, _ in self.win]
        mean = Fr(sum(rts), self.n)
        var = sum((r - mean) ** 2 for r in rts) / self.n
        dev = isqrt(int(var))
        adj = sum(a for _, a in self.win) / self.n
        new = (self.off + adj - self.n - 2, self.off + adj + self.n + 2)
        lo, hi = [], []
        if dev < GUARD + 20:
            lo.append(new[0]), hi.append(new[1])
        if dev > GUARD - 20:
            lo.append(self.off), hi.append(self.off)
            self.rejected += 1
            self.st["irregular windows"] = self.st.get("irregular windows", 0) + 1
        self.expect = (lo, hi)
        self.win = []


if __name__ == "__main__":
    pbt.main(C())
