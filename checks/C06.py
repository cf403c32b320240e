from vlib import pbt, rp, rxcheck


class C(rxcheck.RxCheck):
    id = "C06"
    rule = ("a generated program with 2 or more timers that fired at 3 or more tags in total, with reactions that take time (so that the program runs late), "
            "compared with offset + k*period; without execution times, every firing must also be at its own physical time")
    quick = dict(n=10**9, seconds=50)
    thorough = dict(n=4000000, seconds=840)
    nruns = 3

    def case_feats(self, d):
        k = d.below(4)
        f = dict(reactors=3, reactions=6, outs=2, ins=2, actions=1, timers=6, ops=2, tokens=0, stop=1, scale=(1000, 20000, 1, 1000000, 1000000000), stepwork=1)
        if k in (1, 2):
            f.update(work=60 if k == 1 else 20, block=20)
        if k == 3:
            f.update(actions=3, tokens=1)
        return f

    def cfg_opts(self, d):
        return dict(tick=(0, 0, 1))

    def tweak(self, d, p):
        for t in p["timers"]:
            if d.chance(1, 4):
                t["offset"] += d.pick([1, -1, 3]) if t["offset"] else 0
            if d.chance(1, 4):
                t["period"] += d.pick([1, 7]) if t["period"] else 0

    def judge(self, p, v, cfg, r, ref, st):
        ex, bad = self.basics(p, v, cfg, r)
        st["executions"] += len(ex)
        bad = bad or rxcheck.compare(p, ex, ref)
        if not bad and cfg["tick"] == 0 and not any(o[0] in (11, 17) for x in p["reactions"] for o in x["body"] + x["hand"]):
            st["runs checked for lateness"] += 1
            bad = rxcheck.late(p, ex, r)
        return bad

    def nontrivial(self, p, r, ref):
        return len(p["timers"]) >= 2 and len({o[2:4] for o in ref.out}) >= 3


if __name__ == "__main__":
    pbt.main(C())
