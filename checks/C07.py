from vlib import pbt, rp, rxcheck


class C(rxcheck.RxCheck):
    id = "C07"
    rule = ("a generated program with startup and shutdown reactions that ended by timeout, starvation or a stop request (from a reaction or another thread), "
            "with at least 3 executions; all events up to the final tag and none after it, shutdown reactions once at it, all threads joined")
    quick = dict(n=10**9, seconds=50)
    thorough = dict(n=4000000, seconds=840)
    nruns = 3

    def case_feats(self, d):
        k = d.below(4)
        f = dict(reactors=4, reactions=7, tokens=0, stop=4, timers=3, fast=20, shutdown=1, scale=(1000, 20000, 1000000, 1))
        if k == 1:
            f.update(stop=15, work=20)
        elif k == 2:
            f.update(policies=0, extstop=90, keep=50, scale=(20000, 1000000, 1000), stop=1)
        elif k == 3:
            f.update(timers=1, actions=2, ops=3, stop=0, keep=10)
        return f

    def cfg_opts(self, d):
        return dict(tick=(0, 0, 0, 1))

    def tweak(self, d, p):
        for x in p["reactions"]:
            if d.chance(1, 3):
                x["shutdown"] = 1
        p["reactions"][0]["shutdown"] = 1

    def judge(self, p, v, cfg, r, ref, st):
        ex, bad = self.basics(p, v, cfg, r)
        st["executions"] += len(ex)
        if bad:
            return bad
        fin = [e.tag for e in ex if e.x == 0]
        if not fin:
            return "shutdown: a shutdown reaction did not execute"
        fin = max(fin)
        if not r.extstops:
            st["ended by its own stop tag"] += 1
            bad = rxcheck.compare(p, ex, ref)
        else:
            own = max(o[2:4] for o in ref.out)
            if fin != own:
                # ended by a stop request of another thread: the microstep after the tag current at the call
                st["ended by an external stop"] += 1
                if fin > own:
                    # a request made by a reaction while another thread's request is pending is redundant
                    ref3 = rp.Ref(p, max_steps=4000, ownstop=False).run()
                    if not ref3.trunc and fin > max(o[2:4] for o in ref3.out):
                        return "stop: the final tag is %s, later than %s" % (fin, max(o[2:4] for o in ref3.out))
                if not p["opts"]["fast"] and fin[0] > max(a for _, a in r.extstops) + 10000:
                    return "stop: the final tag is %s, but the last stop request was made at %d" % (fin, max(a for _, a in r.extstops))
                if fin[1] == 0:
                    return "stop: the final tag %s is not the microstep after a tag" % (fin,)
                # a stop request made before the final tag's predecessor began cannot be ignored
                ref2 = rp.Ref(p, stop_at=fin, max_steps=4000, ownstop=False).run()
                if not ref2.trunc:
                    bad = rxcheck.compare(p, ex, ref2)
            else:
                bad = rxcheck.compare(p, ex, ref)
            if not bad and not p["opts"]["fast"]:
                first = min(a for _, a in r.extstops)
                late = [e for e in ex if e.tag[0] > first + 10000]
                if late:
                    return "stop: an execution at %s although a stop had been requested at %d" % (late[0].tag, first)
        if bad:
            return bad
        if cfg["tick"] == 0 and not any(o[0] in (11, 17) for x in p["reactions"] for o in x["body"] + x["hand"]):
            bad = rxcheck.late(p, ex, r)
        if r.fin[0] != 1:
            return "termination: lf_terminate_execution was not called"
        if r.fin[6]:
            return "threads: %d threads were not joined" % r.fin[6]
        return bad

    def nontrivial(self, p, r, ref):
        return len(r.ev) >= 6


if __name__ == "__main__":
    pbt.main(C())
