import bisect
import collections
from vlib import pbt, rp, rxcheck


class C(rxcheck.RxCheck):
    id = "C05"
    rule = ("a generated program in which at least 3 events of physical actions were scheduled, by other threads or by reactions, and at least 2 of them "
            "were delivered; every delivery is matched with the call that caused it")
    quick = dict(n=10**9, seconds=50)
    thorough = dict(n=4000000, seconds=840)
    nruns = 3
    variants = rxcheck.THREADED + rxcheck.MEM
    assumptions = ["threaded waits may return up to 10 microseconds early (wait_until's allowance)"]

    def case_feats(self, d):
        k = d.below(4)
        f = dict(min_actions=1, reactors=3, reactions=6, outs=2, ins=2, actions=3, timers=2, ops=4, tokens=1, stop=0, phys=70, inject=6, fast=10, keep=100, policies=1,
                 scale=(20000, 1000000, 1000), startup=1, shutdown=0)
        if k == 1:
            f.update(actions=1, timers=1, reactions=3, reactors=1, inject=10)
        elif k == 2:
            f.update(work=30, block=1)
        elif k == 3:
            f.update(policies=0, tokens=1, pt_heavy=1, inject=10, actions=2)
        return f

    def cfg_opts(self, d):
        return dict(tick=(0, 0, 1))

    def tweak(self, d, p):
        X = p["reactions"]
        if p["opts"]["timeout"] < 0:
            p["opts"]["timeout"] = 10 * p["U"]
        p["opts"]["keep"] = 1
        for i, a in enumerate(p["actions"]):
            if not a["phys"]:
                continue
            mine = [x for x in X if x["r"] == a["r"]]
            if not any([1, i] in x["trig"] and [1, i] in x["read"] for x in mine):
                x = mine[0]
                if [1, i] not in x["trig"]:
                    x["trig"].append([1, i])
                if [1, i] not in x["read"]:
                    x["read"].append([1, i])
        for x in X:
            if any(k == 1 and p["actions"][i]["phys"] for k, i in x["trig"]):
                for o in x["body"] + x["hand"]:
                    if o[0] == 7 and p["actions"][o[3]]["phys"] and o[1] < 4:
                        o[1:3] = [4, o[2] % 4]

    def works(self, p):
        return any(o[0] in (11, 17) for x in p["reactions"] for o in x["body"] + x["hand"])

    def judge(self, p, v, cfg, r, ref, st):
        ex, bad = self.basics(p, v, cfg, r)
        st["executions"] += len(ex)
        if bad:
            return bad
        fast = p["opts"]["fast"]
        slack = 10000
        A = p["actions"]
        fin = max([e.tag for e in ex], default=(0, 0))
        end = (p["opts"]["timeout"], 0)
        if fin > end:
            return "stop: an execution at %s after the timeout" % (fin,)
        begun = sorted((e.phys, e.tag) for e in ex if e.kind != "W")
        upto, m = [], None
        for ph, t in begun:
            m = t if m is None or t > m else m
            upto.append(m)
        phs = [b[0] for b in begun]
        seen = {}    # (action, tag) -> (value or None)
        for a, et, ms, phys, val, hv, xi in r.phys:
            w = val if hv else None
            if seen.setdefault((a, (et, ms)), w) != w:
                return "value: action %d has the values %s and %s at tag %s" % (a, seen[(a, (et, ms))], w, (et, ms))
            if not fast and et > phys + slack:
                return "ahead: action %d executes at %d when physical time is %d" % (a, et, phys)
        st["events delivered"] += len(seen)
        st["events scheduled"] += len(r.inj)
        calls = collections.defaultdict(list)
        for n, j in enumerate(r.inj):
            inj, k, a, before, after, delay, val, et, ms, kind = j
            calls[a].append(dict(n=n, inj=inj, before=before, after=after, D=A[a]["min"] + max(0, delay), val=val if A[a]["pt"] and kind != 3 else None,
                                 cur=(et, ms) if et >= 0 else None, tag=None))
        ext = []
        for a, act in enumerate(A):
            if not act["phys"]:
                continue
            got = sorted((t, w) for (b, t), w in seen.items() if b == a)
            js = calls[a]
            sp = act["spacing"]
            byval = collections.defaultdict(list)
            for j in js:
                byval[j["val"]].append(j)
            for t, w in got:
                cand = [j for j in byval[w] if j["tag"] is None]
                if not cand:
                    return "once: action %d is present at %s with the value %s, which no call scheduled, or which was delivered before" % (a, t, w)
                if w is None:
                    ok = [j for j in cand if ((sp and act["policy"] == 2) or j["before"] + j["D"] <= t[0]) and (sp or fast or t[0] <= j["after"] + j["D"] + slack)]
                    if not ok:
                        return "time: action %d is present at %s, no call made then scheduled it" % (a, t)
                    # the earliest deadline first
                    j = min(ok, key=lambda j: (j["after"] + j["D"], j["n"]))
                else:
                    j = cand[0]
                j["tag"] = t
                if w is not None:
                    if t[0] < j["before"] + j["D"] and not (sp and act["policy"] == 2):
                        return "time: action %d scheduled at %d with a delay of %d is present at %d" % (a, j["before"], j["D"], t[0])
                    if not sp and not fast and t[0] > j["after"] + j["D"] + slack:
                        return "time: action %d scheduled before %d with a delay of %d is present only at %d" % (a, j["after"], j["D"], t[0])
                    if j["cur"] is not None and t <= j["cur"]:
                        return "past: action %d scheduled by a reaction at %s is present at %s" % (a, j["cur"], t)
                    k = bisect.bisect_left(phs, j["before"])
                    if k and t <= upto[k - 1]:
                        return "past: action %d scheduled at %d, when the tag %s had been reached, is present at %s" % (a, j["before"], upto[k - 1], t)
                hv = w is not None
                val = None if w is None else rp.arr(w, 17 + (w % (1 << 64)) % 5) if act["pt"] == 1 else rp.obj_u(w) if act["pt"] == 2 else rp.Val([w])
                ext.append((t, a, hv, val))
            if sp:
                for (t, _), (u, _) in zip(got, got[1:]):
                    if u[0] < t[0] + sp:
                        return "spacing: action %d is present at %s and %s, its minimum spacing is %d" % (a, t, u, sp)
            # nothing is lost that was due before the end
            if not fast:
                room = slack
                if sp and act["policy"] != 1 and js:
                    room = slack + len(js) * sp + max(j["after"] + j["D"] for j in js)   # deferred to after the last one
                lost = [j for j in js if j["tag"] is None and j["after"] + j["D"] + room < end[0]]
                if sp and act["policy"]:
                    lost = [j for j in lost if j["val"] is not None]   # which of several events without values was dropped cannot be seen
                elif any(w is None for _, w in got):
                    due = [j for j in js if j["val"] is None and j["after"] + j["D"] + room < end[0]]
                    void = len([1 for _, w in got if w is None])
                    lost = [j for j in lost if j["val"] is not None or len(due) > void]
                for j in lost:
                    if sp and act["policy"] in (1, 2):
                        # dropped, or replaced by a later one: there must be another call that explains it
                        if act["policy"] == 1 and any(k is not j and k["before"] <= j["after"] and (k["tag"] is None or j["before"] + j["D"] < k["tag"][0] + sp) for k in js):
                            continue
                        if act["policy"] == 2 and any(k is not j and k["after"] >= j["before"] for k in js):
                            continue
                    return "lost: the event of action %d scheduled at %d (delay %d, value %s) was never delivered; the program ended at %s" % (
                        a, j["before"], j["D"], j["val"], end)
            if js and not fast:
                st["calls"] += len(js)
                # calls of one thread with growing delays are delivered in order
                last = {}
                for j in js:
                    if j["val"] is None or j["tag"] is None or j["inj"] < 0 or (sp and act["policy"] == 2):
                        continue
                    l = last.get(j["inj"])
                    if l is not None and l["D"] <= j["D"] and not l["tag"] < j["tag"]:
                        return "order: thread %d scheduled action %d at %d (delay %d) for %s and then at %d (delay %d) for %s" % (
                            j["inj"], a, l["before"], l["D"], l["tag"], j["before"], j["D"], j["tag"])
                    last[j["inj"]] = j
        if cfg["tick"] == 0 and not self.works(p):
            bad = rxcheck.late(p, ex, r)
            if bad:
                return bad
        ref = rp.Ref(p, ext=ext, stop_at=end, max_steps=6000).run()
        if ref.trunc:
            return None
        return rxcheck.compare(p, ex, ref)

    def nontrivial(self, p, r, ref):
        return len(r.inj) >= 3 and len({x[:3] for x in r.phys}) >= 2


if __name__ == "__main__":
    pbt.main(C())
