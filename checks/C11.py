from vlib import pbt, rp, rxcheck


class C(rxcheck.RxCheck):
    id = "C11"
    rule = ("a generated program of modal and nested reactors in which at least 2 mode switches were made and 8 reactions executed, compared execution by execution "
            "with a reference interpreter of modes")
    quick = dict(n=10**9, seconds=50)
    thorough = dict(n=4000000, seconds=840)
    nruns = 3
    variants = [("single", {"modal": True}), ("NP", {"modal": True}), ("GEDF", {"modal": True}), ("ADAPTIVE", {"modal": True}), ("NP", {"modal": True, "mem": True})]

    def case_feats(self, d):
        k = d.below(4)
        f = dict(modes=1, reactors=4, reactions=9, timers=4, actions=3, min_actions=1, ops=3, outs=3, ins=3, tokens=1, stop=1, fast=50, shutdown=1,
                 scale=(20000, 1000, 1000000), maxsteps=400)
        if k == 1:
            f.update(reactors=2, reactions=6, outs=1, ins=1)
        elif k == 2:
            f.update(tokens=0, timers=5, actions=1)
        elif k == 3:
            f.update(timers=1, actions=4, reactors=3, ops=5, delays=0, pt_heavy=1)
        return f

    def judge(self, p, v, cfg, r, ref, st):
        ex, bad = self.basics(p, v, cfg, r)
        st["executions"] += len(ex)
        st["mode switches"] += ref.stats["modech"]
        return bad or rxcheck.compare(p, ex, ref)

    def nontrivial(self, p, r, ref):
        return ref.stats["modech"] >= 2 and len(ref.out) >= 8


if __name__ == "__main__":
    pbt.main(C())
