from vlib import pbt, rp, rxcheck


class C(rxcheck.RxCheck):
    id = "C08"
    rule = ("a generated program whose reactions read (or iterate over) ports or actions at 3 or more tags, with multiports up to width 40, sparse records "
            "that overflow and several concurrent writers; presence, values and iteration order are part of each execution's digest")
    quick = dict(n=10**9, seconds=50)
    thorough = dict(n=4000000, seconds=840)
    nruns = 3

    def case_feats(self, d):
        k = d.below(4)
        f = dict(dense=20, reactors=5, reactions=10, outs=6, ins=7, actions=2, timers=3, ops=5, tokens=0, stop=0, width=9, work=0, scale=(1000, 1))
        if k == 1:
            f.update(wide=60, reactors=8, reactions=12, iterate=1)
        elif k == 2:
            f.update(tokens=1, width=4)
        elif k == 3:
            f.update(wide=30, width=30, ops=8)
        return f

    def judge(self, p, v, cfg, r, ref, st):
        ex, bad = self.basics(p, v, cfg, r)
        st["executions"] += len(ex)
        st["runs with sparse records"] += any(i["sparse"] for i in p["ins"])
        return bad or rxcheck.compare(p, ex, ref)

    def nontrivial(self, p, r, ref):
        return bool(p["ins"] or p["actions"]) and len({o[2:4] for o in ref.out}) >= 3


if __name__ == "__main__":
    pbt.main(C())
