from vlib import build, pbt, proc

TECH = "value"
NEVER, FOREVER = -2**63, 2**63 - 1


def sat(x):
    return max(NEVER, min(FOREVER, x))


class C(pbt.Check):
    id = "C18"
    rule = ("a script of raw clock values containing at least one step backward (after adding the offset) read by 2 or more threads with at least 2 readings that overlap, "
            "or by one thread; threads are coroutines that are switched at every instrumented memory access of the runtime")
    quick = dict(n=10**9, seconds=25)
    thorough = dict(n=10**9, seconds=300)
    shrink_seconds = 30
    assumptions = ["sequentially consistent interleavings at memory accesses"]

    def setup(self, tier):
        self.exe = build.clk()

    def worker_setup(self):
        self.srv = proc.LineServer([self.exe])

    def worker_done(self):
        self.srv.close()

    def gen(self, d, i):
        nt = d.pick([2, 1, 3, 4])
        bias = d.below(3) == 2
        th = []
        tot = 0
        base = d.pick([10**6, 10**18, 0])
        for _ in range(nt):
            ops = []
            while d.more(6):
                k = d.weighted([(8, 0), (2, 1), (2 if bias else 0, 2), (1, 3), (1, 4)])
                a = 0
                if k == 2:
                    a = d.pick([0, 5, -5, 1000, -1000, 10**12, -10**12, d.int(-100, 100)])
                elif k == 4:
                    a = d.pick([FOREVER, NEVER, base + d.below(1000), FOREVER - 3])
                ops.append([k, a])
            tot += len(ops)
            th.append(ops)
        raw, t = [], base
        style = d.below(4)
        for _ in range(tot):
            raw.append(t)
            t += d.pick([1, 0, 10, 1000]) if style == 0 else d.pick([1, -1, 0, 2, -3]) if style == 1 else d.int(-2000, 2000) if style == 2 else d.pick([1, 1, -10**9, 10**9, 0])
        sched = [d.below(nt + 3) if d.below(3) else 0 for _ in range(min(200, tot * 12))] if nt > 1 else []
        return dict(start=d.pick([0, base, base - 500]), th=th, raw=raw, sched=sched)

    def line(self, c):
        x = [c["start"], len(c["th"])]
        for o in c["th"]:
            x += [len(o)] + [v for p in o for v in p]
        return " ".join(map(str, x + [len(c["raw"])] + c["raw"] + [len(c["sched"])] + c["sched"]))

    def run(self, case):
        ans, bad = self.srv.ask(self.line(case))
        if bad:
            return pbt.Result(bad)
        if "DIED" in ans:
            return pbt.Result("crash: " + ans[-40:])
        w = ans.split()
        i, bias, biases, setting = 0, 0, [[-1, -1, 0]], {}
        calls, open_, back, overlap = [], {}, False, 0
        prev_off = None
        single = len(case["th"]) == 1
        last = None
        while i < len(w):
            k = w[i]
            if k == "S":
                c = dict(t=int(w[i + 1]), s=i, raw=None, rb=None)
                open_[c["t"]] = c
                overlap += len(open_) > 1
                i += 2
            elif k == "R":
                c = open_.get(int(w[i + 1]))
                off = int(w[i + 2]) + bias
                if prev_off is not None and off < prev_off:
                    back = True
                prev_off = off
                if c is not None:
                    if c["raw"] is not None:
                        return pbt.Result("raw: the clock was read twice in one call")
                    c["raw"], c["rp"] = int(w[i + 2]), i
                i += 3
            elif k == "E":
                c = open_.pop(int(w[i + 1]))
                c["e"], c["v"] = i, int(w[i + 2])
                if c["raw"] is None:
                    return pbt.Result("raw: a reading was returned without reading the clock")
                bs = [b for p, e, b in biases if e is None or not any(p2 > e and e2 is not None and e2 < c["rp"] for p2, e2, _ in biases)]
                c["lo"], c["hi"] = sat(c["raw"] + min(bs)), sat(c["raw"] + max(bs))
                calls.append(c)
                if single:
                    exp = c["lo"] if last is None or c["lo"] >= last else last + 1
                    if c["v"] != exp:
                        return pbt.Result("value: reading %d returned %d, expected %d (clock %d + offset, previous reading %s)" % (len(calls), c["v"], exp, c["raw"], last))
                    last = c["v"]
                i += 3
            elif k == "B":
                bias = int(w[i + 2])
                biases.append([i, None, bias])
                setting[int(w[i + 1])] = biases[-1]
                i += 3
            elif k == "b":
                setting[int(w[i + 1])][1] = i
                i += 2
            elif k == "F":
                i += 2
            elif k == "X":
                if int(w[i + 2]) != -1:
                    return pbt.Result("failure: a failing clock gave result %s" % w[i + 2])
                i += 3
            elif k == "Q":
                q, qi = int(w[i + 2]), i
                i += 3
            elif k == "W":
                # only checked when one thread runs, so that the offset is known
                if single:
                    exp = q if q in (NEVER, FOREVER) else sat(q - bias)
                    if int(w[i + 2]) != exp:
                        return pbt.Result("wait: waiting until %d with offset %d waits until %s of the underlying clock" % (q, bias, w[i + 2]))
                i += 3
            else:
                return pbt.Result("answer: " + k)
        nreads = len(calls)
        for c in calls:
            if c["v"] < c["lo"]:
                return pbt.Result("value: a reading of %d is below the clock plus the offset, %d" % (c["v"], c["lo"]))
            top = max(x["hi"] for x in calls if x["rp"] < c["e"])
            n = sum(1 for x in calls if x["rp"] < c["e"])
            if c["v"] > top + n:
                return pbt.Result("value: a reading of %d exceeds every earlier value of the clock, %d" % (c["v"], top))
            for b in calls:
                if b["s"] > c["e"] and b["v"] < c["v"]:
                    return pbt.Result("backward: a reading of %d by thread %d was followed by a reading of %d by thread %d" % (c["v"], c["t"], b["v"], b["t"]))
        return pbt.Result(None, back and (overlap > 0 or single) and nreads >= 2, stats=dict(readings=nreads, overlapping=overlap))

    def explain(self, case):
        print(self.line(case))
        print(self.srv.ask(self.line(case))[0])


if __name__ == "__main__":
    pbt.main(C())
