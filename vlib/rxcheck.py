"""Base of the checks that run generated reactor programs on the real runtime under a controlled scheduler."""
import collections
import re
from vlib import build, gen, pbt, rp

SINGLE = [("single", {})]
THREADED = [("NP", {}), ("GEDF", {}), ("ADAPTIVE", {})]
MEM = [("NP", {"mem": True}), ("GEDF", {"mem": True}), ("ADAPTIVE", {"mem": True})]


def vname(v):
    return v[0] + "".join("-" + k for k in sorted(v[1]) if v[1][k])


class Exec:
    """One execution of a reaction in a trace."""
    __slots__ = ("kind", "x", "tag", "phys", "thread", "start", "end", "h", "read")


def executions(r):
    """Pairs the begin and end records. Returns (list in order of beginning, error or None)."""
    out, open_ = [], {}
    for e in r.ev:
        if e[0] in "BDW":
            q = Exec()
            q.kind, q.x, q.tag, q.phys, q.thread, q.start, q.end, q.h = e[0], e[1], (e[2], e[3]), e[4], e[5], e[6], None, None
            q.read = (e[8], e[9]) if e[7] else None   # earliest and last clock reading of the thread before the execution
            k = ("W" if e[0] == "W" else "R", e[1])
            if k in open_:
                return out, "overlap: %s %d begins again before it has ended" % k
            open_[k] = q
            out.append(q)
        else:
            k = ("W" if e[4] == "W" else "R", e[1])
            q = open_.pop(k, None)
            if q is None:
                return out, "trace: an end without a beginning"
            q.h, q.end = e[2], e[3]
    if open_:
        return out, "unfinished: %s %d did not finish" % list(open_)[0]
    return out, None


def compare(p, ex, ref, what="reference"):
    """Compares, per reactor, the executions with those of the reference."""
    X = p["reactions"]
    got, want = collections.defaultdict(list), collections.defaultdict(list)
    for e in ex:
        if e.kind != "W":
            got[X[e.x]["r"]].append((e.tag[0], e.tag[1], e.x, e.kind, e.h))
    for k, x, t, ms, h in ref.out:
        want[X[x]["r"]].append((t, ms, x, k, h))
    worst = None
    for r in set(got) | set(want):
        g, w = got[r], want[r]
        if g == w:
            continue
        for i in range(max(len(g), len(w))):
            a = g[i] if i < len(g) else None
            b = w[i] if i < len(w) else None
            if a != b:
                key = min(x[:2] for x in (a, b) if x)
                if worst is None or key < worst[0]:
                    worst = (key, r, i, a, b)
                break
    if worst is None:
        return None
    _, r, i, a, b = worst
    f = lambda q: "nothing" if q is None else "reaction %d%s at %s microstep %d (digest %x)" % (q[2], " handler" if q[3] == "D" else "", q[0], q[1], q[4])
    kind = "digest" if a and b and a[:4] == b[:4] else "sequence"
    return "%s: reactor %d, execution %d: got %s, the %s has %s" % (kind, r, i, f(a), what, f(b))


def order(p, ex, reach, level_pairs=True):
    """Reactions of a tag: once, after what they depend on, not overlapping within a reactor, not mixed with other tags."""
    X = p["reactions"]
    cur, running, tagset = None, {}, {}
    evs = []
    for e in ex:
        if e.kind == "W":
            continue
        evs.append((e.start, 0, e))
        evs.append((e.end, 1, e))
    evs.sort(key=lambda t: t[0])
    done = 0
    for _, k, e in evs:
        if k == 1:
            running.pop(e.x)
            continue
        if e.tag != cur:
            if running:
                y = next(iter(running.values()))
                return "barrier: reaction %d begins at tag %s while reaction %d is still executing at tag %s" % (e.x, e.tag, y.x, y.tag)
            if cur is not None and e.tag < cur:
                return "past: reaction %d executes at %s after %s" % (e.x, e.tag, cur)
            cur, tagset = e.tag, {}
        if e.x in tagset:
            return "twice: reaction %d executes twice at tag %s" % (e.x, e.tag)
        for y in running.values():
            if X[y.x]["r"] == X[e.x]["r"]:
                return "mutex: reactions %d and %d of reactor %d overlap at tag %s" % (y.x, e.x, X[e.x]["r"], e.tag)
            if reach[y.x] >> e.x & 1:
                return "order: reaction %d begins before reaction %d, on which it depends, has finished, at tag %s" % (e.x, y.x, e.tag)
        for y in tagset:
            if reach[e.x] >> y & 1:
                return "order: reaction %d executes after reaction %d, which depends on it, at tag %s" % (e.x, y, e.tag)
        tagset[e.x] = e
        running[e.x] = e
    return None


def ahead(p, ex, slack=10000):
    if p["opts"].get("fast"):
        return None
    for e in ex:
        if e.kind != "W" and e.tag[0] > e.phys + slack:
            return "ahead: reaction %d executes at logical time %d when physical time is %d" % (e.x, e.tag[0], e.phys)
    return None


def late(p, ex, r, slack=0):
    """With no execution time and a clock that only advances when every thread waits, nothing may be executed late."""
    if p["opts"].get("fast"):
        return None
    ext = min([b for b, _ in r.extstops], default=None)
    for e in ex:
        if e.kind != "W" and e.phys > e.tag[0] + slack and not (ext is not None and e.tag[0] <= ext <= e.phys <= max(a for _, a in r.extstops)):
            return "late: reaction %d executes at physical time %d for logical time %d although nothing took any time" % (e.x, e.phys, e.tag[0])
    return None


class RxCheck(pbt.Check):
    variants = SINGLE + THREADED + MEM
    feats = {}
    nruns = 3
    mem_accounting = True

    def setup(self, tier):
        self.exe = {vname(v): build.rx(v[0], **v[1]) for v in self.variants}

    def worker_setup(self):
        self.servers = {k: rp.Server(e) for k, e in self.exe.items()}

    def worker_done(self):
        for s in self.servers.values():
            s.close()

    def case_feats(self, d):
        return self.feats

    def cfg_opts(self, d):
        return {}

    def pick_variants(self, d):
        return [d.pick(self.variants) for _ in range(self.nruns)]

    def gen(self, d, i):
        p = gen.program(d, self.case_feats(d))
        self.tweak(d, p)
        runs = []
        for v in self.pick_variants(d):
            cfg = gen.config(d, mem=v[1].get("mem", False), **self.cfg_opts(d))
            runs.append([vname(v), cfg])
        return dict(p=p, runs=runs)

    def tweak(self, d, p):
        pass

    def reference(self, p):
        return rp.Ref(p, max_steps=3000).run()

    def with_late(self, p, ex, ref, **kw):
        """The reference in which the deadlines that were missed are missed, or None if it is too long."""
        lates = {(e.x, e.tag) for e in ex if e.kind == "D"}
        if lates or kw:
            ref = rp.Ref(p, late=lates, max_steps=6000, **kw).run()
        return None if ref.trunc else ref

    def one(self, p, v, cfg):
        return self.servers[v].run(rp.encode(p, cfg))

    def show(self, case):
        p = case["p"]
        return dict(reactions=len(p["reactions"]), reactors=len(p["reactors"]), actions=p["actions"][:3], timers=p["timers"][:3], options=p["opts"],
                    inputs=len(p["ins"]), outputs=len(p["outs"]), runs=case["runs"][:2], bodies=[x["body"] for x in p["reactions"]][:4])

    def run(self, case):
        p = case["p"]
        ref = self.reference(p)
        if ref is not None and ref.trunc:
            return pbt.Result(inconclusive="the reference execution is too long")
        st = collections.Counter()
        bad = None
        nt = False
        for v, cfg in case["runs"]:
            r = self.one(p, v, cfg)
            f = r.failure()
            if f and f.startswith("limit"):
                return pbt.Result(inconclusive=re.sub(r"[0-9]+", "N", f)[:60])
            if f:
                bad = f
            else:
                bad = self.judge(p, v, cfg, r, ref, st)
            st["runs " + v] += 1
            if bad:
                bad = "%s [variant %s, schedule %s]" % (bad, v, cfg)
                break
            nt = nt or self.nontrivial(p, r, ref)
        return pbt.Result(bad=bad, nontrivial=nt, stats=dict(st))

    def nontrivial(self, p, r, ref):
        return len(r.ev) >= 8

    def judge(self, p, v, cfg, r, ref, st):
        raise NotImplementedError

    # the parts of verdicts shared by several checks
    def basics(self, p, v, cfg, r):
        ex, err = executions(r)
        if err:
            return ex, err
        if r.odd:
            return ex, "odd: " + r.odd[0]
        if self.mem_accounting and r.mem:
            return ex, "memory: " + r.mem
        return ex, None

    def explain(self, case):
        for i, x in enumerate(case["p"]["reactions"]):
            print("reaction", i, {k: v for k, v in x.items()})
        for k in ("opts", "actions", "timers", "outs", "ins", "wds", "modes", "reactors", "inj"):
            print(k, case["p"][k])
        ref = self.reference(case["p"])
        if ref is not None:
            print("reference", ref.out[:60])
        for v, cfg in case["runs"]:
            r = self.one(case["p"], v, cfg)
            print(v, cfg, r.failure(), r.fin, r.mem)
            for e in r.ev[:120]:
                print("  ", e)
