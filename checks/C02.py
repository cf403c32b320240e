from vlib import pbt, rp, rxcheck


class C(rxcheck.RxCheck):
    id = "C02"
    rule = ("a generated program in which, at some tag, two reactions of different reactors or with a dependency executed, run on threaded schedulers "
            "with 2 to 8 workers (schedules with preemption at synchronisation operations, or at memory accesses)")
    quick = dict(n=10**9, seconds=50)
    thorough = dict(n=4000000, seconds=840)
    variants = rxcheck.THREADED + rxcheck.MEM
    nruns = 4

    def case_feats(self, d):
        k = d.below(4)
        f = dict(reactors=6, reactions=14, outs=8, ins=9, tokens=0, stop=0, work=0, timers=1, actions=2, startup=1, dense=50)
        if k == 1:
            f.update(reactors=10, reactions=20, outs=12, ins=14)
        elif k == 2:
            f.update(work=20, block=25)
        elif k == 3:
            f.update(reactors=3, deadlines=30)
        return f

    def cfg_opts(self, d):
        return dict(workers=(2, 3, 4, 6, 8))

    def judge(self, p, v, cfg, r, ref, st):
        ex, bad = self.basics(p, v, cfg, r)
        st["executions"] += len(ex)
        conc = 0
        if not bad:
            bad = rxcheck.order(p, ex, rp.reach(p))
        if not bad:
            ref = self.with_late(p, ex, ref)
            bad = ref and rxcheck.compare(p, ex, ref)
        last = None
        for e in sorted(ex, key=lambda e: e.start):
            if last is not None and e.start < last:
                conc += 1
            last = max(last or 0, e.end or 0)
        st["overlapping executions"] += conc
        return bad

    def nontrivial(self, p, r, ref):
        seen = {}
        for k, x, t, ms, h in ref.out:
            seen.setdefault((t, ms), set()).add(x)
        return any(len(s) >= 2 for s in seen.values())


if __name__ == "__main__":
    pbt.main(C())
