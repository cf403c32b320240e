from vlib import pbt, rp, rxcheck


class C(rxcheck.RxCheck):
    id = "C10"
    rule = ("a generated program in which at least 2 reactions with a deadline executed, in time or late, or a deadline was checked explicitly; "
            "whether the body or the handler runs is compared with the clock readings, and everything downstream with the reference")
    quick = dict(n=10**9, seconds=50)
    thorough = dict(n=4000000, seconds=840)
    nruns = 3

    def case_feats(self, d):
        k = d.below(4)
        f = dict(dense=15, reactors=4, reactions=8, outs=5, ins=5, actions=2, timers=2, ops=5, deadlines=60, work=60, stop=0, fast=8, chk=1, width=2, policies=0,
                 scale=(20000, 1000, 1, 1000000), tokens=1, deadline_far=1)
        if k == 1:
            f.update(reactors=6, reactions=6, outs=8, ins=8, width=1, actions=1)   # chains
        elif k == 2:
            f.update(block=1, tokens=0)
        elif k == 3:
            f.update(work=20, ops=3, timers=3)
        return f

    def cfg_opts(self, d):
        return dict(tick=(0, 0, 1))

    def judge(self, p, v, cfg, r, ref, st):
        ex, bad = self.basics(p, v, cfg, r)
        st["executions"] += len(ex)
        if bad:
            return bad
        X = p["reactions"]
        dl = [x["deadline"] for x in X]
        one = v == "single" or cfg["workers"] == 1
        exact = cfg["tick"] == 0 and one
        for e in ex:
            if e.kind == "W" or dl[e.x] < 0:
                continue
            limit = e.tag[0] + dl[e.x]
            if e.kind == "D":
                st["missed"] += 1
                # the runtime's clock may run ahead of the real one by one unit per thread that raced with another
                if dl[e.x] and e.phys + (0 if one else 16) <= limit:
                    return "handler: the deadline handler of reaction %d (deadline %d) runs at %d for logical time %d" % (e.x, dl[e.x], e.phys, e.tag[0])
                if one and dl[e.x] and e.read is not None and e.read[1] <= limit:
                    return "handler: the deadline handler of reaction %d (deadline %d) runs for logical time %d, the clock read %d" % (e.x, dl[e.x], e.tag[0], e.read[1])
            else:
                st["met"] += 1
                if e.phys == limit:
                    st["met at the boundary"] += 1
                if dl[e.x] == 0:
                    return "body: reaction %d with deadline 0 executes at tag %s instead of its handler" % (e.x, e.tag)
                if exact and e.phys > limit:
                    return "body: reaction %d (deadline %d) executes at %d for logical time %d instead of its handler" % (e.x, dl[e.x], e.phys, e.tag[0])
                if e.read is not None and e.read[0] > limit:
                    return "body: reaction %d (deadline %d) executes for logical time %d, the clock had read %d" % (e.x, dl[e.x], e.tag[0], e.read[0])
        for x, et, before, after, b, inv, called in r.chk:
            st["explicit checks"] += 1
            if b and after + (0 if one else 16) <= et + dl[x]:
                return "check: lf_check_deadline in reaction %d (deadline %d) at logical time %d is true at %d" % (x, dl[x], et, after)
            if not b and before > et + dl[x]:
                return "check: lf_check_deadline in reaction %d (deadline %d) at logical time %d is false at %d" % (x, dl[x], et, before)
            if called != (b and inv):
                return "check: lf_check_deadline(%d) in reaction %d, which was %d, called the handler %d times" % (inv, x, b, called)
        ref = self.with_late(p, ex, ref)
        if ref is None:
            return None
        return rxcheck.compare(p, ex, ref)

    def nontrivial(self, p, r, ref):
        X = p["reactions"]
        return sum(1 for e in r.ev if e[0] in "BD" and X[e[1]]["deadline"] >= 0) + len(r.chk) >= 2


if __name__ == "__main__":
    pbt.main(C())
