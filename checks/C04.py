from vlib import pbt, rp, rxcheck


class C(rxcheck.RxCheck):
    id = "C04"
    rule = ("a generated program in which at least 4 logical-action events were scheduled, run on the single-threaded runtime and threaded schedulers and compared with the "
            "reference semantics of minimum delay, additional delay, spacing, policy and superdense time")
    quick = dict(n=10**9, seconds=50)
    thorough = dict(n=4000000, seconds=840)
    nruns = 3

    def case_feats(self, d):
        k = d.below(4)
        f = dict(reactors=2, reactions=5, outs=1, ins=1, actions=4, timers=2, ops=7, tokens=1, work=5, stop=1, policies=1, delays=1)
        if k == 1:
            f.update(scale=(1, 1, 1000))
        elif k == 2:
            f.update(reactors=1, reactions=3, actions=2, ops=10)
        elif k == 3:
            f.update(stop=10, policies=0)
        return f

    def judge(self, p, v, cfg, r, ref, st):
        ex, bad = self.basics(p, v, cfg, r)
        st["executions"] += len(ex)
        for k in ("sched", "conflict", "defer", "drop", "replace", "afterstop"):
            st["events " + k] += ref.stats[k]
        return bad or rxcheck.compare(p, ex, ref)

    def nontrivial(self, p, r, ref):
        return ref.stats["sched"] >= 4


if __name__ == "__main__":
    pbt.main(C())
