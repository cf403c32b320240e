from vlib import pbt, rxcheck

TECH = "rx"


class C(rxcheck.RxCheck):
    id = "P01"
    rule = "a generated program whose Python reactions read (or iterate over) ports or actions at 3 or more tags"
    quick = dict(n=10**9, seconds=50)
    thorough = dict(n=4000000, seconds=840)
    nruns = 3
    variants = [("single", {"py": True}), ("NP", {"py": True}), ("GEDF", {"py": True}), ("single", {"py": True, "modal": True}), ("NP", {"py": True, "modal": True})]

    def case_feats(self, d):
        k = d.below(5)
        self.modal = k == 4
        if k == 4:
            return dict(modes=1, reactors=4, reactions=9, timers=4, actions=3, min_actions=1, ops=3, outs=3, ins=3, tokens=1, stop=1, fast=50, shutdown=1,
                        scale=(20000, 1000, 1000000), maxsteps=400, mutable=0, resets=0)
        f = dict(dense=20, reactors=5, reactions=10, outs=6, ins=7, actions=3, timers=2, ops=6, tokens=1, stop=3, width=6, work=3, scale=(1000, 1), mutable=0, sparse=0, deadlines=0)
        if k == 1:
            f.update(actions=4, outs=2, ins=2, reactors=2)
        elif k == 2:
            f.update(pt_heavy=1, reactors=7, reactions=12)
        elif k == 3:
            f.update(deadlines=15, width=9)
        return f

    def pick_variants(self, d):
        return [d.pick([v for v in self.variants if bool(v[1].get("modal")) == self.modal]) for _ in range(self.nruns)]

    def judge(self, p, v, cfg, r, ref, st):
        ex, bad = self.basics(p, v, cfg, r)
        st["executions"] += len(ex)
        if bad:
            return bad
        ref = self.with_late(p, ex, ref)
        return None if ref is None else rxcheck.compare(p, ex, ref)

    def nontrivial(self, p, r, ref):
        return bool(p["ins"] or p["actions"]) and len({o[2:4] for o in ref.out}) >= 3


if __name__ == "__main__":
    pbt.main(C())
