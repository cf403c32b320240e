from vlib import pbt, rp, rxcheck


class C(rxcheck.RxCheck):
    id = "C13"
    rule = ("a generated program run on a threaded scheduler with 2 or more workers, external threads or stop requests and at least 8 executions; "
            "the controlled scheduler reports deadlock (every thread blocked for ever) and livelock (time does not advance and nothing executes)")
    quick = dict(n=10**9, seconds=50)
    thorough = dict(n=6000000, seconds=840)
    nruns = 6
    variants = rxcheck.THREADED + rxcheck.MEM + rxcheck.MEM + rxcheck.SINGLE

    def case_feats(self, d):
        k = d.below(6)
        f = dict(dense=15, reactors=6, reactions=10, outs=5, ins=6, actions=3, timers=2, ops=4, tokens=0, stop=3, work=5, fast=20, keep=30, scale=(20000, 1000, 1000000, 1))
        if k == 1:
            f.update(min_actions=1, phys=60, inject=6, keep=80, tokens=1)
        elif k == 2:
            f.update(extstop=90, keep=60, actions=2)
        elif k == 3:
            f.update(min_actions=1, phys=60, inject=5, extstop=50, keep=60, block=1)
        elif k == 4:
            f.update(reactions=16, reactors=14, outs=10, ins=14, actions=1, deadlines=20)   # wide levels
        elif k == 5:
            f.update(reactions=3, reactors=2, actions=1, timers=1, stop=20, keep=50)   # small: deep in interleavings
        return f

    def cfg_opts(self, d):
        return dict(tick=(0, 0, 1), workers=(2, 3, 1, 4, 8, 16))

    def tweak(self, d, p):
        p["reactions"][0]["shutdown"] = 1
        for i, a in enumerate(p["actions"]):
            for x in p["reactions"]:
                if a["phys"] and [1, i] in x["trig"]:
                    for o in x["body"] + x["hand"]:
                        if o[0] == 7 and p["actions"][o[3]]["phys"] and o[1] < 4:
                            o[1:3] = [4, o[2] % 4]

    def judge(self, p, v, cfg, r, ref, st):
        ex, bad = rxcheck.executions(r)
        st["executions"] += len(ex)
        st["switches"] += r.fin[8]
        if bad:
            return bad
        if r.odd:
            return "odd: " + r.odd[0]
        if r.fin[0] != 1:
            return "termination: lf_terminate_execution was not called"
        if r.fin[6]:
            return "threads: %d threads were not joined" % r.fin[6]
        if not any(e.x == 0 and e.kind == "B" for e in ex) and p["reactions"][0]["deadline"] < 0:
            return "termination: the shutdown reaction did not execute"
        if not p["inj"] and not any(a["phys"] for a in p["actions"]) and not any(x["deadline"] >= 0 for x in p["reactions"]):
            return rxcheck.compare(p, ex, ref)   # every reaction that was ready was taken
        return None

    def nontrivial(self, p, r, ref):
        return len(r.ev) >= 16


if __name__ == "__main__":
    pbt.main(C())
