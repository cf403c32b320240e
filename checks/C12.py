from checks import C05 as c05
from vlib import pbt, rp, rxcheck


class C(c05.C):
    id = "C12"
    rule = ("a generated program in which watchdogs were started at least 3 times, by reactions, deadline handlers or watchdog handlers, and one of them expired; "
            "the state of every watchdog is replayed from the starts and stops in the order in which they happened")
    quick = dict(n=10**9, seconds=50)
    thorough = dict(n=4000000, seconds=840)
    nruns = 3
    variants = rxcheck.THREADED + rxcheck.MEM

    def case_feats(self, d):
        k = d.below(4)
        f = dict(min_actions=1, reactors=2, reactions=5, outs=1, ins=1, actions=2, timers=2, ops=3, tokens=1, stop=0, phys=60, inject=2, fast=0, keep=100,
                 policies=0, scale=(20000, 1000000), wd=3, shutdown=1)
        if k == 1:
            f.update(work=15, block=1)
        elif k == 2:
            f.update(reactors=1, actions=1, tokens=0, inject=0)
        elif k == 3:
            f.update(deadlines=50, work=20, fast=10)
        return f

    def cfg_opts(self, d):
        return dict(tick=(0, 0, 0, 1))

    def judge(self, p, v, cfg, r, ref, st):
        bad = self.watch(p, v, cfg, r, st)
        if bad:
            return bad
        if any(x["deadline"] >= 0 for x in p["reactions"]):
            return None   # what is late depends on the watchdogs' execution times
        return super().judge(p, v, cfg, r, ref, st)

    def works(self, p):
        return any(o[0] in (11, 17) for x in p["reactions"] + p["wds"] for o in x["body"] + x.get("hand", []))

    def watch(self, p, v, cfg, r, st):
        X = p["reactions"]
        # everything that may delay a handler
        slack = 0
        for e in r.ev:
            if e[0] in "BDW":
                b = p["wds"][e[1]]["body"] if e[0] == "W" else X[e[1]]["hand" if e[0] == "D" else "body"]
                slack += sum(o[3] for o in b if o[0] in (11, 17))
        punctual = cfg["tick"] == 0
        wd = {i: None for i in range(len(p["wds"]))}   # expiration
        since = {}
        running = {}   # reactor -> [(kind, id)]
        fired = 0
        calls = list(r.wd)
        ci = 0
        now = 0

        def apply(upto):
            nonlocal ci, now
            while ci < len(calls) and calls[ci][1] <= upto:
                c = calls[ci]
                ci += 1
                now = max(now, c[-1])
                b = due(now)
                if b:
                    return b
                if c[0] == "w":
                    m = p["wds"][c[2]]["min"] + c[3]
                    wd[c[2]] = (c[4] + m, c[5] + m)   # the tag may advance while a handler executes
                    since[c[2]] = c[6]
                    st["starts"] += 1
                else:
                    wd[c[2]] = None
                    st["stops"] += 1
            return None

        def due(t):
            if not punctual:
                return None
            for w, e in wd.items():
                if e is not None and t > max(e[1], since[w]) + slack:
                    return "missed: watchdog %d expired at %d and its handler has not begun at %d" % (w, e[1], t)

        for n, e in enumerate(r.ev):
            bad = apply(n)
            if bad:
                return bad
            k = e[0] if e[0] != "E" else e[4]
            react = p["wds"][e[1]]["r"] if k == "W" else X[e[1]]["r"]
            if e[0] == "E":
                if (k == "W", e[1]) in running.get(react, []):
                    running[react].remove((k == "W", e[1]))
                continue
            now = max(now, e[4])
            if running.setdefault(react, []):
                return "overlap: %s %d of reactor %d begins while %s %d of that reactor executes" % (
                    "watchdog" if k == "W" else "reaction", e[1], react, "watchdog" if running[react][0][0] else "reaction", running[react][0][1])
            running[react].append((k == "W", e[1]))
            if k == "W":
                w = e[1]
                if wd[w] is None:
                    return "spurious: the handler of watchdog %d runs at %d although it is not started" % (w, e[4])
                if e[4] + 16 * max(1, cfg["tick"]) < wd[w][0]:   # the runtime's clock may be ahead by 1 per racing thread
                    return "early: the handler of watchdog %d runs at %d, it expires at %d" % (w, e[4], wd[w][0])
                wd[w] = None   # before checking the others: its own expiration is honoured now
                st["expirations"] += 1
                fired += 1
            bad = due(now)
            if bad:
                return bad
        bad = apply(1 << 60)
        if bad:
            return bad
        r.fired = fired
        return None

    def nontrivial(self, p, r, ref):
        return sum(1 for c in r.wd if c[0] == "w") >= 3 and any(e[0] == "W" for e in r.ev)


if __name__ == "__main__":
    pbt.main(C())
