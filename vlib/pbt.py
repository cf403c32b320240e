"""A small property-based testing engine: choice-sequence generation, parallel search, shrinking, replay, evidence.

A check is a module with a class deriving from Check. A case is a JSON value built from a Draw; `run(case)` executes it
against the code under test and returns a Result. Every case is a function of (seed, index) only.
"""
import hashlib, json, multiprocessing as mp, os, random, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Draw:
    """A source of choices. Recorded, so that a case can be shrunk by simplifying the record."""
    def __init__(self, rng=None, choices=None):
        self.rng, self.choices, self.pos, self.rec = rng, choices, 0, []

    def below(self, n):  # 0 is the simplest
        if n <= 1:
            return 0
        if self.choices is not None:
            v = self.choices[self.pos] if self.pos < len(self.choices) else 0
            v = min(v, n - 1)
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def chance(self, num, den):  # false is the simplest
        return self.below(den) >= den - num

    def pick(self, seq):  # earlier is simpler
        return seq[self.below(len(seq))]

    def weighted(self, pairs):  # [(weight, value)]; the first is the simplest
        tot = sum(w for w, _ in pairs)
        x = self.below(tot)
        for w, v in pairs:
            if x < w:
                return v
            x -= w

    def size(self, lo, hi):  # geometric-ish, favouring small but reaching hi
        if hi <= lo:
            return lo
        m = self.below(4)
        if m == 0:
            return lo + self.below(min(3, hi - lo + 1))
        if m < 3:
            return lo + self.below((hi - lo) // 2 + 1)
        return lo + self.below(hi - lo + 1)

    def more(self, avg):  # continue a history? Deleting the choices of one step leaves the other steps as they are
        return self.below(avg + 1) != 0

    def list(self, lo, hi, f):
        return [f() for _ in range(self.size(lo, hi))]


class Result:
    __slots__ = ("bad", "nontrivial", "key", "stats", "inconclusive")

    def __init__(self, bad=None, nontrivial=True, key=None, stats=None, inconclusive=None):
        self.bad = bad                  # None or a message describing the violation
        self.nontrivial = nontrivial
        self.key = key                  # identity for counting distinct cases
        self.stats = stats or {}        # name -> count, summed over the run
        self.inconclusive = inconclusive


class Check:
    id = None
    rule = ""
    level = "exploration"
    assumptions = []
    quick = dict(n=2000, seconds=30)
    thorough = dict(n=200000, seconds=600)
    confirm = 3
    shrink_seconds = 40
    workers = None

    def setup(self, tier):   # in the parent: build what is needed
        pass

    def worker_setup(self):  # in each worker
        pass

    def gen(self, d, i):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def show(self, case):    # a readable form for samples
        return case

    def extra(self):         # directed cases (JSON), run first
        return []

    def known(self, case, msg):  # id of a listed known finding this failure is an instance of, or None
        return None


def corpus(check):
    d = os.path.join(VERIF, "corpus", check.id)
    out = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith(".json"):
                with open(os.path.join(d, f)) as fh:
                    out.append(json.load(fh)["case"])
    return out


def _case_seed(seed, check_id, i):
    return int.from_bytes(hashlib.sha256(("%s/%s/%d" % (check_id, seed, i)).encode()).digest()[:8], "big")


def _digest(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def _worker(check, wid, nw, seed, n, deadline, q, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        os.sched_setaffinity(0, {sorted(os.sched_getaffinity(0))[wid % len(os.sched_getaffinity(0))]})
    except OSError:
        pass
    out = dict(evaluations=0, nontrivial=set(), stats={}, samples=[], bad=[], unconfirmed=[], inconclusive={}, error=None, known={})
    try:
        check.worker_setup()
        directed = check.extra() + corpus(check)
        todo = [("d", c) for c in directed[wid::nw]]
        i = wid
        while not stop.value and time.time() < deadline:
            choices = None
            if todo:
                case = todo.pop(0)[1]
            elif i < n:
                d = Draw(random.Random(_case_seed(seed, check.id, i)))
                case = check.gen(d, i)
                choices = (i, d.rec)
                i += nw
            else:
                break
            r = check.run(case)
            out["evaluations"] += 1
            for k, v in r.stats.items():
                out["stats"][k] = out["stats"].get(k, 0) + v
            if r.inconclusive:
                out["inconclusive"][r.inconclusive] = out["inconclusive"].get(r.inconclusive, 0) + 1
                continue
            if r.bad:
                kf = check.known(case, r.bad)
                if kf:
                    out["known"][kf] = out["known"].get(kf, 0) + 1
                    continue
                if not all(check.run(case).bad for _ in range(check.confirm)):
                    # not reproducible: not counted as a violation, and the search goes on
                    out["unconfirmed"].append(r.bad[:500])
                    if len(out["unconfirmed"]) <= 2:
                        save(check.id, case, r.bad, "unconfirmed-")
                    continue
                out["bad"].append((case, choices, r.bad))
                stop.value = 1
                break
            if r.nontrivial:
                out["nontrivial"].add(r.key or _digest(case))
                if len(out["samples"]) < 2 and out["evaluations"] > 3:
                    s = check.show(case)
                    out["samples"].append(s)
    except Exception:
        out["error"] = traceback.format_exc()
        stop.value = 1
    if hasattr(check, "worker_done"):
        check.worker_done()
    q.put(out)


def _same(a, b):  # same kind of failure: compare the tag before the first colon
    return a.split(":")[0] == b.split(":")[0]


def save(prop, case, msg, prefix=""):
    rd = os.path.join(VERIF, "replays", prop)
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, prefix + _digest(case) + ".json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, message=msg, case=case), f, indent=1)
    return path


def shrink(check, i, choices, msg, seconds):
    """Simplifies the choice record while the same kind of failure persists."""
    end = time.time() + seconds
    best = list(choices)
    seen = set()

    def fails(ch):
        key = tuple(ch)
        if key in seen or time.time() > end:
            return None
        seen.add(key)
        d = Draw(choices=ch)
        try:
            case = check.gen(d, i)
            r = check.run(case)
        except Exception:
            return None
        if r.bad and not r.inconclusive and _same(r.bad, msg) and not check.known(case, r.bad):
            return d.rec
        return None

    improved = True
    while improved and time.time() < end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            p = 0
            while p < len(best) and time.time() < end:
                c = best[:p] + best[p + size:]
                r = fails(c)
                if r is not None and (len(r), sum(r)) < (len(best), sum(best)):
                    best = r
                    improved = True
                    continue
                if any(best[p:p + size]):
                    r = fails(best[:p] + [0] * len(best[p:p + size]) + best[p + size:])
                    if r is not None and (len(r), sum(r)) < (len(best), sum(best)):
                        best = r
                        improved = True
                p += size
            size //= 2
        for p in range(len(best)):
            if p >= len(best) or time.time() > end:
                break
            lo, hi = 0, best[p]
            while lo < hi and p < len(best) and time.time() < end:
                mid = (lo + hi) // 2
                r = fails(best[:p] + [mid] + best[p + 1:])
                if r is not None and len(r) <= len(best):
                    best = r
                    improved = True
                    if p >= len(best):
                        break
                    hi = min(mid, best[p])
                else:
                    lo = mid + 1
    return check.gen(Draw(choices=best), i), best


def findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f).get("known", []) if x["property"] == prop]


def main(check):
    """Entry point: python3 -m checks.<ID> [--replay FILE]."""
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    check.tier = tier
    try:
        check.setup(tier)
    except Exception:
        traceback.print_exc()
        print("ERROR: the check could not be set up")
        sys.exit(3)
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            case = json.load(f)["case"]
        check.worker_setup()
        r = check.run(case)
        print(r.bad or ("inconclusive: " + r.inconclusive if r.inconclusive else "holds"))
        if hasattr(check, "explain"):
            check.explain(case)
        sys.exit(1 if r.bad else 0)
    lim = check.thorough if tier == "thorough" else check.quick
    n, secs = lim["n"], lim["seconds"]
    if os.environ.get("RX_N"):
        n = int(os.environ["RX_N"])
    if os.environ.get("RX_SECONDS"):
        secs = float(os.environ["RX_SECONDS"])
    nw = check.workers or os.cpu_count() or 4
    tsearch = time.time()
    deadline = tsearch + secs
    ctx = mp.get_context("fork")
    stop = ctx.Value("i", 0)
    q = ctx.Queue()
    ps = [ctx.Process(target=_worker, args=(check, w, nw, seed, n, deadline, q, stop)) for w in range(nw)]
    for p in ps:
        p.start()
    outs = []
    limit = deadline + 240
    while len(outs) < nw and time.time() < limit:
        try:
            outs.append(q.get(timeout=1))
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    errors = [o["error"] for o in outs if o["error"]]
    if len(outs) < nw:
        errors.append("%d workers gave no result" % (nw - len(outs)))
    ev = dict(property=check.id, tier=tier, seed=seed, level=check.level,
              coverage=dict(evaluations=sum(o["evaluations"] for o in outs),
                            distinct_nontrivial=len(set().union(*[o["nontrivial"] for o in outs])) if outs else 0,
                            rule=check.rule, samples=[s for o in outs for s in o["samples"]][:4]),
              violations=[], assumptions=list(check.assumptions))
    stats = {}
    inc = {}
    kn = {}
    for o in outs:
        for k, v in o["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in o["inconclusive"].items():
            inc[k] = inc.get(k, 0) + v
        for k, v in o["known"].items():
            kn[k] = kn.get(k, 0) + v
    ev["coverage"]["counters"] = stats
    ev["coverage"]["inconclusive"] = inc
    ev["coverage"]["search_seconds"] = round(time.time() - tsearch, 1)
    code = 0
    for k in findings(check.id):
        print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (check.id, k["what"], kn.get(k["id"], 0)))
        ev["coverage"].setdefault("known_findings_met", {})[k["id"]] = kn.get(k["id"], 0)
    cands = [b for o in outs for b in o["bad"]]
    cands.sort(key=lambda b: len(b[1][1]) if b[1] else 0)
    flaky = sum(len(o["unconfirmed"]) for o in outs)
    if flaky:
        ev["coverage"]["unconfirmed"] = [m for o in outs for m in o["unconfirmed"]][:20]
    check.worker_setup()
    for case, choices, msg in cands:
        fails = 0
        m2 = msg
        for _ in range(check.confirm):
            r = check.run(case)
            if r.bad:
                fails += 1
                m2 = r.bad
        if fails < check.confirm:
            flaky += 1
            ev["coverage"].setdefault("unconfirmed", []).append(msg[:500])
            save(check.id, case, msg, "unconfirmed-")
            continue
        if choices and not os.environ.get("RX_NOSHRINK"):
            try:
                small, rec = shrink(check, choices[0], choices[1], m2, check.shrink_seconds)
                rs = [check.run(small) for _ in range(check.confirm)]
                if all(r.bad for r in rs):
                    case, m2 = small, rs[0].bad
            except Exception:
                traceback.print_exc()
        path = save(check.id, case, m2)
        ev["violations"].append(dict(message=m2[:2000], replay=path))
        print(m2)
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        code = 1
        break
    if hasattr(check, "worker_done"):
        check.worker_done()
    ev["wall_s"] = round(time.time() - t0, 2)
    if code == 0 and flaky:
        print("note: %d failing cases were not reproducible and are reported as inconclusive" % flaky)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d distinct non-trivial, %s, inconclusive %s, %.1fs" % (
        check.id, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], stats, inc, ev["wall_s"]))
    if errors and code == 0:
        print("ERROR in the check:\n" + "\n".join(errors)[:4000])
        sys.exit(3)
    if code == 0 and ev["coverage"]["evaluations"] == 0:
        print("ERROR: nothing was evaluated")
        sys.exit(3)
    sys.exit(code)
