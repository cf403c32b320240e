from vlib import pbt, rxcheck


class C(rxcheck.RxCheck):
    id = "C01"
    rule = ("a generated program whose execution has at least 4 reaction executions, run on 4 (variant, schedule) pairs drawn from single-threaded, "
            "NP, GEDF and adaptive schedulers, with scheduling choices at synchronisation operations or at memory accesses")
    quick = dict(n=10**9, seconds=50)
    thorough = dict(n=4000000, seconds=840)
    nruns = 4

    def case_feats(self, d):
        k = d.below(5)
        f = dict(work=20, dense=20)
        if k == 1:
            f.update(reactors=8, reactions=18, outs=8, ins=9, tokens=0)
        elif k == 2:
            f.update(reactors=3, reactions=8, actions=5, scale=(1, 1000))
        elif k == 3:
            f.update(reactors=10, reactions=20, outs=10, ins=12, actions=1, timers=1, stop=0)
        elif k == 4:
            f.update(wide=30)
        return f

    def judge(self, p, v, cfg, r, ref, st):
        ex, bad = self.basics(p, v, cfg, r)
        st["executions"] += len(ex)
        for k in ("conflict", "defer", "drop", "replace", "stopreq", "fwd", "copies"):
            if ref.stats[k]:
                st["programs with " + k] += 1
        return bad or rxcheck.compare(p, ex, ref)


if __name__ == "__main__":
    pbt.main(C())
