"""T02: the trace of a program shows what the program did."""
import collections
from vlib import build, pbt, rxcheck

TECH = "rx"
STARTS, ENDS, MISSED, SCHED, EVENT, VALUE, WAIT, WAITED, ADV, ADVED = range(10)
T = {"trace": True}


class C(rxcheck.RxCheck):
    id = "T02"
    rule = ("a generated traced program with at least 8 executed reactions; every record of the trace is compared with the executions that the reaction bodies "
            "themselves recorded and with the events of the reference")
    quick = dict(n=10**9, seconds=50)
    thorough = dict(n=4000000, seconds=600)
    variants = [(s, dict(T)) for s in ("single", "NP", "GEDF", "ADAPTIVE")] + [(s, dict(T, mem=True)) for s in ("NP", "GEDF", "ADAPTIVE")] + [(s, dict(T, asan=True)) for s in ("single", "NP")]
    nruns = 3

    def case_feats(self, d):
        k = d.below(6)
        f = dict(reactors=4, reactions=8, outs=4, ins=4, tokens=30, stop=0, work=0, timers=2, actions=2, startup=1, policies=0)
        if k == 1:
            f.update(reactors=8, reactions=16, outs=8, ins=10, dense=50)
        elif k == 2:
            f.update(deadlines=50, work=20)
        elif k == 3:
            f.update(phys=40, inject=2, keep=100)
        elif k == 4:   # more records than a buffer holds
            f.update(reactors=1, reactions=2, outs=0, ins=0, timers=2, work=0, actions=1, tokens=0, fast=100)
        elif k == 5:
            f.update(min_actions=1, reactors=2, actions=2, ops=3, keep=100, fast=0, wd=4, shutdown=1, scale=(20000, 1000000))
        return f

    def gen(self, d, i):
        c = super().gen(d, i)
        if c["p"]["wds"]:
            c["runs"] = [r for r in c["runs"] if not r[0].startswith("single")] or [["NP-trace", c["runs"][0][1]]]
        return c

    def judge(self, p, v, cfg, r, ref, st):
        ex, bad = self.basics(p, v, cfg, r)
        if bad:
            return bad
        st["executions"] += len(ex)
        bad = self.threads(p, v, ex, r, st)
        if bad:
            return bad
        if p["wds"] or p["inj"] or any(a["phys"] for a in p["actions"]):
            return None     # what is scheduled depends on the schedule
        ref = self.with_late(p, ex, ref)
        return ref and self.events(p, r, ref, st)

    def threads(self, p, v, ex, r, st):
        X = p["reactions"]
        num, cnt = [], collections.Counter()
        for x in X:
            num.append(cnt[x["r"]])
            cnt[x["r"]] += 1
        want = collections.defaultdict(list)
        for e in ex:
            if e.kind == "W":
                continue
            w = want[e.thread]
            me = (X[e.x]["r"], num[e.x], e.tag)
            if e.kind == "D":
                w.append((MISSED, *me, 0, e.phys))
            w.append((STARTS, *me, X[e.x]["deadline"], e.phys))
            w.append((EVENT, -2, -1, e.tag, 0, e.phys))
            w.append((VALUE, -3, -1, e.tag, e.x, e.phys))
        got = collections.defaultdict(list)
        for b in r.trace:
            ids = {q[2] for q in b if q[0] in (STARTS, ENDS, MISSED)}
            if len(ids) > 1:
                return "blocks: a block of the trace has reactions of workers %s" % sorted(ids)
            waits = {q[2] for q in b if q[0] in (WAIT, WAITED)}
            if len(waits | ids) > 1:
                return "blocks: a block of the trace has waits of workers %s and reactions of %s" % (sorted(waits), sorted(ids))
            st["blocks"] += 1
            st["full blocks"] += len(b) == 2048
            for q in b:
                if q[0] in (STARTS, ENDS, MISSED, EVENT, VALUE):
                    if not ids:
                        if q[0] in (EVENT, VALUE) and not waits:
                            return None     # a block begins between the records of a reaction: cannot be attributed
                    w = next(iter(ids or waits))
                    got[w].append((q[0], q[1], q[3], (q[4], q[5]), q[8], q[6]))
        # ends match starts; what a handler enables may be executed before its end is recorded
        for w in got:
            seq, stack, prev = [], [], None
            for q in got[w]:
                if q[0] == STARTS:
                    stack.append((q, prev is not None and prev[0] == MISSED))
                elif q[0] == ENDS:
                    if not stack or stack[-1][0][1:5] != q[1:5] or (not stack[-1][1] and prev[0] != VALUE):
                        return "ends: worker %d has %s after %s" % (w, q, prev)
                    if q[5] < stack.pop()[0][5]:
                        return "times: a reaction ends before it starts: %s" % (q,)
                if q[0] != ENDS:
                    seq.append(q)
                prev = q
            if stack:
                return "ends: worker %d does not record the end of %s" % (w, stack[-1][0])
            got[w] = seq
        # every thread with reactions is one worker
        key = lambda s: [x[:5] for x in s]
        left = dict(got)
        for t, s in want.items():
            w = next((w for w in left if key(left[w]) == key(s)), None)
            if w is None:
                c = min(left, key=lambda w: -next((i for i in range(min(len(s), len(left[w]))) if s[i][:5] != left[w][i][:5]), 10**6), default=None)
                g = left.get(c, [])
                i = next((i for i in range(max(len(s), len(g))) if i >= len(s) or i >= len(g) or s[i][:5] != g[i][:5]), 0)
                return "records: record %d of a worker is %s, the execution has %s" % (i, g[i] if i < len(g) else "nothing", s[i] if i < len(s) else "nothing")
            g = left.pop(w)
            for a, b in zip(g, s):
                if a[0] in (STARTS, MISSED) and a[5] > b[5] + 100 or a[0] in (EVENT, VALUE) and a[5] < b[5]:
                    return "times: record %s is at %d, the reaction executed at %d" % (a[:5], a[5], b[5])
        if left:
            w, g = next(iter(left.items()))
            return "records: worker %d has the record %s, which nothing executed has" % (w, g[0])
        for w in {q[2] for b in r.trace for q in b if q[0] in (WAIT, WAITED)}:
            s = [q[0] for b in r.trace for q in b if q[0] in (WAIT, WAITED) and q[2] == w]
            if any(a == b for a, b in zip(s, s[1:])) or s[0] != WAIT:
                return "waits: the waits of worker %d do not alternate" % w
            st["waits"] += len(s) // 2
        return None

    def events(self, p, r, ref, st):
        logical = {i for i, a in enumerate(p["actions"]) if not a["phys"]}
        want = collections.Counter()
        for (k, i), now, tag in ref.events:
            if k == "a" and i in logical:
                want[10000 + i, now, tag[0] - now[0]] += 1
            elif k == "t":
                want[20000 + i, now, tag[0] - now[0]] += 1
        for i, t in enumerate(p["timers"]):
            n = len(ref.by_timer.get(i, []))
            if t["offset"] == 0 and n:
                want[20000 + i, (0, 0), 0] += n
        got = collections.Counter()
        for b in r.trace:
            for q in b:
                if q[0] == SCHED:
                    if q[7] == -9 or q[1] == -9:
                        return "trigger: an event of an unknown trigger: %s" % (q,)
                    if q[7] >= 10000:
                        x = p["timers"][q[7] - 20000]["r"] if q[7] >= 20000 else p["actions"][q[7] - 10000]["r"]
                        if q[1] not in (-1, x):
                            return "trigger: an event of a trigger of reactor %d is recorded for reactor %d" % (x, q[1])
                        if q[7] < 20000 and q[7] - 10000 not in logical:
                            continue
                        got[q[7], (q[4], q[5]), q[8]] += 1
        st["events"] += sum(got.values())
        stop = p["opts"]["timeout"]
        for k in set(got) | set(want):
            if got[k] != want[k] and not (got[k] > want[k] and k[1][0] + k[2] == stop):
                return "events: trigger %d at %s with delay %d is recorded %d times, expected %d; of this trigger at this tag: %s, expected %s" % (
                    k[0], k[1], k[2], got[k], want[k], {x[2]: n for x, n in got.items() if x[:2] == k[:2]}, {x[2]: n for x, n in want.items() if x[:2] == k[:2] and n})
        return None


if __name__ == "__main__":
    pbt.main(C())
