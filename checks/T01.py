"""T01: a trace holds every traced event exactly once, in order per thread, and the conversion tool renders exactly the records."""
import json
import os
import shutil
import struct
import subprocess
import tempfile
from collections import Counter
from vlib import build, pbt, proc, unitcheck
from vlib.unitcheck import Mismatch

TECH = "model"
M = 2**64 - 1
CAP, TABLE = 2048, 1024
NAMES = []


def mix(x):
    x ^= x >> 30
    x = x * 0xbf58476d1ce4e5b9 & M
    x ^= x >> 27
    x = x * 0x94d049bb133111eb & M
    return x ^ x >> 31


def s64(x):
    return x - 2**64 if x >> 63 else x


class C(unitcheck.UnitCheck):
    id = "T01"
    rule = ("a history with at least two threads, or a thread with more events than its buffer holds; of the histories whose trace can be written, with at least one event. Every record of the file is "
            "compared; every 4th file also goes through the conversion tool")
    quick = dict(n=10**9, seconds=45)
    thorough = dict(n=10**9, seconds=300)
    shrink_seconds = 40

    def setup(self, tier):
        self.exe = [build.tracer(), build.tracer(True)]
        self.csv, self.chrome = build.trace_tools()
        src = open(os.path.join(build.REPO, "trace/api/types/trace_types.h")).read()
        i = src.index("trace_event_names[]")
        body = src[i:src.index("};", i)]
        NAMES[:] = [x.strip()[1:-1] for line in body.splitlines()[1:] for x in [line.split("//")[0].strip().rstrip(",")] if x.startswith('"')]
        i = src.index("typedef enum {")
        enum = [x.split("//")[0].strip().rstrip(",") for x in src[i:src.index("}", i)].splitlines()[1:]]
        self.enum = [x for x in enum if x]

    def worker_setup(self):
        self.dir = tempfile.mkdtemp(prefix="t01.")
        self.srv = [proc.LineServer([e, self.dir]) for e in self.exe]

    def worker_done(self):
        for s in getattr(self, "srv", []):
            s.close()
        if getattr(self, "dir", None):
            shutil.rmtree(self.dir, ignore_errors=True)

    def gen(self, d, i):
        n = d.pick([1, 2, 2, 3, 4, 6])
        c = dict(asan=int(d.chance(1, 3)), seed=d.below(2**31), policy=d.below(3), sync=d.pick([1, 2, 5, 20]), mem=d.pick([30, 200, 1000, 5000]), pct=d.below(6),
                 nev=d.pick([10, 30, 53, 2, 2, 1005]), nobj=d.pick([0, 3, 20]), wide=d.below(2), id=d.pick([0, 1, 300, -1]),
                 out=d.weighted([(12, "file"), (1, "none"), (1, "full")]), csv=int(i // 8 % 4 == 0), json=int(i // 8 % 8 == 0), phys=d.below(2), slow=d.pick([0, 1, 30, 300]), base=d.pick([0, 0, 30, 59, 62, 70, 1000]), len=d.pick([1, 10, 60, 90, 100, 110]))
        budget = [d.pick([100, 5000, 14000])]
        th = []
        for k in range(n):
            ops = []
            while d.more(4):
                op = d.weighted([(6, 0), (1 if k == 0 or d.chance(1, 6) else 0, 1), (1, 2)])
                v = 0
                if op == 0:
                    v = min(budget[0], d.pick([1, 3, 10, 100, 1000, CAP - 1, CAP, CAP + 1, 2 * CAP, 2 * CAP + 3, d.below(3000)]))
                    budget[0] -= v
                elif op == 1:
                    v = d.pick([1, 2, 5, 20, 1100 if d.chance(1, 10) else 1])
                if op != 0 or v:
                    ops.append([op, v])
            if k == 0 and d.chance(3, 4):
                ops.insert(d.below(len(ops) + 1), [3, d.pick([10**9, 1, 0, 17 * 10**17 + d.below(10**9)])])
            th.append([int(k == 0 or d.chance(2, 3)), ops])
        if i // 8 % 6 == 5:  # objects registered by several threads at a time
            n = max(n, 3)
            th = [[int(k == 0 or d.chance(2, 3)), [[1, d.pick([5, 30, 100])] if d.chance(2, 3) else [0, d.pick([1, 20, 300])] for _ in range(1 + d.below(3))]] for k in range(n)]
            c.update(mem=d.pick([3, 7, 30]), asan=0)
        c["th"] = th
        c["after"] = [[0, d.pick([1, 5, 3000])]] if d.chance(1, 3) and budget[0] > 3000 else []
        c["spare"] = d.below(2)
        c["win"] = d.pick([None, None, [d.pick([0, 5, 1000]), d.pick(["nsec", "usec", "msec"]), d.pick([3000, 10**6, 1]), d.pick(["sec", "msec", "usec"])]])
        return c

    def line(self, c):
        n = len(c["th"])
        x = [c["seed"], c["policy"], c["sync"], 0 if c["asan"] else c["mem"], c["pct"], c["nev"], c["nobj"], c["wide"], c["base"], c["slow"], int(c["out"] == "none"),
             sum(t[0] for t in c["th"]) + c["spare"], c["id"], c["len"], n]
        for m, ops in c["th"]:
            x += [m, len(ops)] + [v for o in ops for v in o]
        return " ".join(map(str, x + [len(c["after"])] + [v for o in c["after"] for v in o]))

    def event(self, c, tid, seq):
        h = mix(tid << 40 | seq)
        return (c["nev"] - 1000 if c["nev"] >= 1000 else h % c["nev"], 0x1000 + (h >> 8) % (c["nobj"] + 2), tid + c["base"], (h >> 16) % 64, ((h >> 20) & 0xfffffff) * (12345678901 if c["wide"] else 1), (h >> 48) & 0x7fff,
                s64(mix(h)) >> (2 if c["wide"] else 30), 0x2000 + (h >> 12) % (c["nobj"] + 2),
                seq * (7777777777 if c["wide"] else 1))

    def run(self, case):
        name = "rti.lft" if case["id"] < 0 else "x" * case["len"] + "_%d.lft" % case["id"]
        path = os.path.join(self.dir, name)
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))
        if case["out"] == "full":
            os.symlink("/dev/full", path)
        ans, bad = self.srv[case["asan"]].ask(self.line(case))
        if bad:
            return pbt.Result(bad)
        st = {}
        try:
            if not ans.endswith("end"):
                if " died 44" in ans:
                    return pbt.Result(None, False, inconclusive="limit")
                raise Mismatch("trace: the program ends with %s" % ans[-120:])
            nt = self.judge(case, ans.split(), path, st)
        except Mismatch as e:
            return pbt.Result(str(e))
        return pbt.Result(None, nt, stats=st)

    def judge(self, c, ans, path, st):
        n = len(c["th"])
        total = [sum(v for o, v in ops if o == 0) for _, ops in c["th"]]
        total[0] += sum(v for o, v in c["after"] if o == 0)
        big = n > 1 or max(total) > CAP
        if c["out"] != "file":
            st["traces that cannot be written"] = 1
            return big
        regs = []
        order = Counter()
        for k in range(0, len(ans) - 1, 3):
            if ans[k] != "g":
                raise Mismatch("trace: " + " ".join(ans)[:100])
            regs.append((int(ans[k + 1]), int(ans[k + 2])))
        if not os.path.exists(path):
            raise Mismatch("trace: there is no trace file %s" % os.path.basename(path))
        with open(path, "rb") as f:
            data = f.read()
        if not sum(total):
            return False
        # header
        if len(data) < 12:
            raise Mismatch("trace: the file has %d bytes for %d events" % (len(data), sum(total)))
        start, m = struct.unpack_from("<qi", data, 0)
        times = [v for o, v in c["th"][0][1] if o == 3]
        before = 0      # events of the first thread before the time was set: the header may be written before
        for o, v in c["th"][0][1]:
            if o == 3:
                break
            before += v if o == 0 else 0
        if start != (times[0] if times else 0) and not (times and before > CAP and start == 0):
            raise Mismatch("trace: the start time is %d, expected %s" % (start, times or 0))
        pos = 12
        table = []
        for _ in range(m):
            p, t, ty = struct.unpack_from("<QQi", data, pos)
            e = data.index(b"\0", pos + 20)
            table.append((p, t, ty, data[pos + 20:e].decode()))
            pos = e + 1
        self.table(c, regs, table, total)
        # records
        seen = [0] * n
        nrec = chunks = 0
        recs = []
        while pos < len(data):
            k, = struct.unpack_from("<i", data, pos)
            pos += 4
            if not 0 < k <= CAP or pos + 64 * k > len(data):
                raise Mismatch("trace: a block of %d records at byte %d of %d" % (k, pos - 4, len(data)))
            chunks += 1
            for _ in range(k):
                r = struct.unpack_from("<i4xQiiqqqQq", data, pos)
                pos += 64
                t = r[2] - c["base"]
                if not 0 <= t < n:
                    raise Mismatch("trace: a record that nobody made: %s" % (r,))
                e = self.event(c, t, seen[t])
                if r != e:
                    raise Mismatch("trace: record %d of thread %d is %s, expected %s" % (seen[t], t, r, e))
                seen[t] += 1
                recs.append(r)
        if seen != total:
            raise Mismatch("trace: the file has %s events per thread, %s were recorded" % (seen, total))
        st["records"] = len(recs)
        st["blocks"] = chunks
        if c["csv"]:
            st["files converted"] = 1
            self.convert(c, start, table, recs, path)
            if c["json"]:
                self.json(c, start, recs, path)
        return big

    def desc(self, tid, x):
        return "" if x % 11 == 5 else "object %d of %d%s" % (x, tid, " with a long name, a comma" if x % 7 == 3 else "")

    def table(self, c, regs, table, total):
        want = {x: (0x1000 + x, 0x2000 + x, x % 3, self.desc(t, x)) for t, x in regs}
        owner = {x: t for t, x in regs}
        got = []
        for e in table:
            x = e[0] - 0x1000
            if want.get(x) != e:
                raise Mismatch("trace: the object table has %s, registered was %s" % (e, want.get(x)))
            got.append(x)
        if len(set(got)) != len(got):
            raise Mismatch("trace: an object is twice in the table")
        for t in range(len(c["th"])):
            mine = [x for x in got if owner[x] == t]
            all_ = sorted(x for x in owner if owner[x] == t)
            if mine != all_[:len(mine)]:
                raise Mismatch("trace: the objects of thread %d in the table are %s..., registered were %s..." % (t, mine[:20], all_[:20]))
        # what must be there: everything, when nothing was written before the end; what the first thread registered first
        if max(total[1:] + [0]) <= CAP and sum(t for t, (m, _) in zip(total, c["th"]) if not m) <= CAP and total[0] <= CAP:
            if len(got) != min(TABLE, len(owner)):
                raise Mismatch("trace: the object table has %d entries, %d were registered" % (len(got), len(owner)))
        else:
            k = ev = 0
            for o, v in c["th"][0][1]:
                if o == 0:
                    ev += v
                elif o == 1 and ev <= CAP:
                    k += v
            mine = sum(1 for x in got if owner[x] == 0)
            if mine < min(k, TABLE):
                raise Mismatch("trace: the object table has %d objects of the first thread, which registered %d before the trace was written" % (mine, k))

    def convert(self, c, start, table, recs, path):
        argv = [self.csv]
        lo, hi = -2**63, 2**63 - 1
        unit = dict(nsec=1, usec=1000, msec=10**6, sec=10**9)
        if c["win"]:
            a, u, b, w = c["win"]
            argv += ["-s", str(a), u, "-e", str(b), w]
            lo, hi = a * unit[u], b * unit[w]
        r = subprocess.run(argv + [path], cwd=self.dir, capture_output=True, text=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"), timeout=120)
        if r.returncode:
            raise Mismatch("csv: the conversion ends with %d: %s" % (r.returncode, r.stderr[:1200]))
        root = os.path.splitext(path)[0]
        with open(root + ".csv") as f:
            rows = f.read().split("\n")
        obj, trg = {}, {}
        for p, t, ty, s in table:
            obj.setdefault(p, s)
            if ty == 1:
                trg.setdefault(t, s)
        k = 1
        count = Counter()
        for e in recs:
            el = s64((e[4] - start) & M)
            if not lo <= el < hi:
                continue
            count[e[0]] += 1
            want = "%s, %s, %d, %d, %d, %d, %d, %s, %d" % (NAMES[e[0]], obj.get(e[1], "NO REACTOR"), e[2], e[3], el, e[5], s64((e[6] - start) & M), trg.get(e[7], "NO TRIGGER"), e[8])
            if k >= len(rows) or rows[k] != want:
                raise Mismatch("csv: line %d is %r, expected %r" % (k, rows[k] if k < len(rows) else None, want))
            k += 1
        if rows[k:] != [""]:
            raise Mismatch("csv: %d lines too many" % (len(rows) - k - 1))
        with open(root + "_summary.csv") as f:
            txt = f.read()
        got = {}
        for line in txt.split("Total Event Occurrences\n")[1].split("\n"):
            if not line:
                break
            a, b = line.rsplit(", ", 1)
            got[a] = int(b)
        want = {NAMES[t]: v for t, v in count.items()}
        if got != want:
            raise Mismatch("csv: the summary counts %s, expected %s" % (got, want))
        self.reactions(c, txt, obj, [e for e in recs if lo <= s64((e[4] - start) & M) < hi])

    def json(self, c, start, recs, path):
        r = subprocess.run([self.chrome] + ["-p"] * c["phys"] + [path], cwd=self.dir, capture_output=True, text=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"), timeout=120)
        if r.returncode:
            raise Mismatch("chrome: the conversion ends with %d: %s" % (r.returncode, r.stderr[-1200:]))
        with open(os.path.splitext(path)[0] + ".json") as f:
            try:
                got = [e for e in json.load(f)["traceEvents"] if e["ph"] != "M"]
            except ValueError as e:
                raise Mismatch("chrome: the file is not valid JSON: %s" % e)
        ph = dict(reaction_starts="B", reaction_ends="E", worker_wait_starts="B", worker_wait_ends="E", scheduler_advancing_time_starts="B", scheduler_advancing_time_ends="E", user_value="C")
        k = 0
        for e in recs:
            kind = self.enum[e[0]]
            x, y = s64((e[4] - start) & M), s64((e[6] - start) & M)
            if e[0] > self.enum.index("federated") or x <= -1000 or y <= -1000:
                continue
            lt, pt = (v // 1000 if v >= 0 else 0 for v in (x, y))
            if k >= len(got):
                raise Mismatch("chrome: only %d events" % k)
            g = got[k]
            k += 1
            ts = pt
            if not c["phys"]:
                ts = lt + e[8] // 1000 if kind == "schedule_called" else lt if kind in ("user_event", "user_value") else pt
            args = {"value": e[8]} if kind == "user_value" else {"reaction": int(str(e[3])[:3]), "logical time": lt, "physical time": pt, "microstep": e[5]}
            want = (NAMES[e[0]], ph.get(kind, "i"), ts, args)
            if (g["cat"], g["ph"], g["ts"], g["args"]) != want:
                raise Mismatch("chrome: event %d is %s, expected %s" % (k - 1, g, want))
            if want[1] in "BE" and g["tid"] != e[2]:
                raise Mismatch("chrome: event %d is of thread %d, expected %d" % (k - 1, g["tid"], e[2]))
            if kind == "reaction_starts" and not c["phys"]:
                g = got[k] if k < len(got) else {}
                k += 1
                want = ("reaction %d" % e[3], "i", lt, {"microstep": e[5], "physical time": pt})
                if (g.get("name"), g.get("ph"), g.get("ts"), g.get("args")) != want:
                    raise Mismatch("chrome: event %d is %s, expected %s" % (k - 1, g, want))
        if k != len(got):
            raise Mismatch("chrome: %d events, expected %d" % (len(got), k))

    def times(self, part, obj, recs, mixed):
        """The times of the reactions' executions and the sums of the values traced by the user."""
        begin, run = {}, {}
        kinds, vals = {}, {}
        for e in recs:
            k = self.enum[e[0]]
            kinds.setdefault(e[1], set()).add(k)
            if k == "schedule_called":
                kinds.setdefault(e[7] - 0x1000, set()).add(k)
            if k == "user_value":
                vals.setdefault(e[1], []).append(e[8])
            if e[1] in obj and e[3] < 64 and k in ("reaction_starts", "reaction_ends"):
                w = obj[e[1]], e[3]
                if k == "reaction_starts":
                    begin[w] = s64(e[6] & M)
                else:
                    run.setdefault(w, []).append(s64(e[6] & M) - begin.pop(w) if w in begin else None)
        for line in part.get("Reaction Executions", []):
            f = line.rsplit(", ", 7)
            t = run.get((f[0], int(f[1])), [None])
            if f[0] and f[0] not in mixed and None not in t and min(t) > 0:
                if [int(f[3]), int(f[5]), int(f[6]), int(f[7])] != [sum(t), sum(t) // len(t), max(t), min(t)]:
                    raise Mismatch("csv: the summary has %s, the executions took %s" % (line, t[:50]))
        line = {x.rsplit(", ", 5)[0]: x for x in part.get("User events", []) if x.count(", ") >= 5}
        for p, v in vals.items():
            if kinds[p] == {"user_value"} and p - 0x1000 not in kinds and obj.get(p) and min(v) > 0:
                want = "%s, %d, %d, %d, %d, %d" % (obj[p], len(v), sum(v), sum(v) // len(v), max(v), min(v))
                if line.get(obj[p]) != want:
                    raise Mismatch("csv: the summary has %s, expected %s" % (line.get(obj[p]), want))

    def reactions(self, c, txt, obj, recs):
        """The occurrences per reaction and per waiting worker in the summary."""
        part = {}
        for block in txt.split("\n\n"):
            head, _, rest = block.partition("\n")
            part[head] = [x for x in rest.split("\n")[1:] if x]
        mixed = {obj[e[1]] for e in recs if NAMES[e[0]] == "User-defined valued event" and e[1] in obj}
        want = Counter()
        wait, last = Counter(), {}
        for e in recs:
            k = self.enum[e[0]]
            if k == "reaction_ends" and e[3] < 64 and e[1] in obj and obj[e[1]] not in mixed:
                want[obj[e[1]], e[3]] += 1
            if e[2] < 64 and k in ("worker_wait_starts", "worker_wait_ends", "scheduler_advancing_time_starts", "scheduler_advancing_time_ends"):
                w = (e[2], "advancing time" if "adv" in k else "reaction queue")
                last[w] = k
                if "ends" in k:
                    wait[w] += 1
        got = Counter()
        for line in part.get("Reaction Executions", []):
            f = line.rsplit(", ", 7)
            if f[0] not in mixed:
                got[f[0], int(f[1])] += int(f[2])
        if got != want:
            raise Mismatch("csv: the summary has the reaction executions %s, expected %s" % (sorted(got.items()), sorted(want.items())))
        if not c["wide"]:
            self.times(part, obj, recs, mixed)
        got = {}
        for line in part.get("Workers Waiting", []):
            f = line.split(", ")
            got[int(f[0]), f[1]] = int(f[2])
        want = {w: v for w, v in wait.items() if "ends" in last[w]}
        if got != want:
            raise Mismatch("csv: the summary has the waits %s, expected %s" % (got, want))


if __name__ == "__main__":
    pbt.main(C())
