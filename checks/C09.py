from vlib import pbt, rp, rxcheck


class C(rxcheck.RxCheck):
    id = "C09"
    rule = ("a generated program in which dynamically allocated arrays or objects were sent, forwarded, copied, mutated or scheduled at least 3 times; every "
            "payload is tracked from allocation to release (double release, use after release, release without destructor, leak), also under AddressSanitizer")
    quick = dict(n=10**9, seconds=50)
    thorough = dict(n=4000000, seconds=840)
    nruns = 3
    variants = rxcheck.SINGLE + rxcheck.THREADED + rxcheck.MEM + [("single", {"asan": True}), ("NP", {"asan": True})]
    assumptions = ["payloads of events still pending when the program stops (the runtime reports them as unprocessed) need not be released"]

    def case_feats(self, d):
        k = d.below(4)
        f = dict(dense=35, reactors=5, reactions=9, outs=6, ins=7, actions=3, timers=2, ops=6, tokens=1, stop=0, width=3, work=5, scale=(1000, 1), pt_heavy=1)
        if k == 1:
            f.update(actions=4, outs=2, ins=2, reactors=2)
        elif k == 2:
            f.update(actions=0, reactors=7, reactions=12)
        elif k == 3:
            f.update(stop=3, deadlines=15)
        return f

    def judge(self, p, v, cfg, r, ref, st):
        ex, bad = self.basics(p, v, cfg, r)
        st["executions"] += len(ex)
        if bad:
            return bad
        ref = self.with_late(p, ex, ref)
        if ref is None:
            return None
        bad = rxcheck.compare(p, ex, ref)
        if bad:
            return bad
        st["payloads"] += r.fin[1]
        live = r.fin[2]
        if "asan" not in v:
            pend = {id(x) for evs in ref.pending.values() for x in evs.values() if isinstance(x, rp.Val)} | {id(x) for x in ref.maybe_pending if isinstance(x, rp.Val)}
            if live > len(pend):
                return "leak: %d payloads were not released at the end, %d belong to pending events: %s" % (live, len(pend), r.leaks[:3])
        return None

    def nontrivial(self, p, r, ref):
        return r.fin is not None and r.fin[1] >= 3


if __name__ == "__main__":
    pbt.main(C())
