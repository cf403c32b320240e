from vlib import pbt, rp, rxcheck, gen


class C(rxcheck.RxCheck):
    id = "C03"
    rule = ("a generated program with executions at 3 or more tags, with execution times, blocking, physical actions scheduled by reactions and other "
            "threads, and stop requests from reactions and from other threads")
    quick = dict(n=10**9, seconds=50)
    thorough = dict(n=4000000, seconds=840)
    nruns = 3

    def case_feats(self, d):
        k = d.below(4)
        f = dict(reactors=4, reactions=8, tokens=0, stop=2, work=15, timers=3, fast=12, scale=(1000, 20000, 1000000, 1))
        if k == 1:
            f.update(stop=0, work=40, block=20)
        elif k == 2:
            f.update(phys=60, inject=6, actions=3, tokens=1, scale=(20000, 1000000))
        elif k == 3:
            f.update(policies=0, extstop=70, scale=(20000, 1000000, 1000))
        return f

    def pick_variants(self, d):
        return [d.pick(self.variants) for _ in range(self.nruns)]

    def tweak(self, d, p):
        p["reactions"][0]["shutdown"] = 1

    def judge(self, p, v, cfg, r, ref, st):
        ex, bad = self.basics(p, v, cfg, r)
        st["executions"] += len(ex)
        if bad:
            return bad
        prev = None
        for e in sorted(ex, key=lambda e: e.start):
            if e.kind == "W":
                continue
            if prev is not None and e.tag < prev:
                return "past: reaction %d executes at tag %s after tag %s" % (e.x, e.tag, prev)
            prev = e.tag
        bad = rxcheck.ahead(p, ex, 0 if v == "single" else 10000)
        if bad:
            return bad
        t = p["opts"]["timeout"]
        if t >= 0 and prev is not None and prev > (t, 0):
            return "stop: an execution at %s, after the timeout %d" % (prev, t)
        fin = [e.tag for e in ex if e.x == 0]
        if not fin:
            return "stop: the shutdown reaction did not execute"
        if max(e.tag for e in ex) > max(fin):
            return "stop: an execution at %s, after the shutdown reactions at %s" % (max(e.tag for e in ex), max(fin))
        if not r.phys and not r.inj:
            # everything executes at the tag it was scheduled for
            ref = rp.Ref(p, stop_at=max(fin), max_steps=4000, ownstop=False).run() if r.extstops else ref
            if not ref.trunc:
                return rxcheck.compare(p, ex, ref)
        return None

    def nontrivial(self, p, r, ref):
        return len({e[2:4] for e in r.ev if e[0] in "BD"}) >= 3


if __name__ == "__main__":
    pbt.main(C())
