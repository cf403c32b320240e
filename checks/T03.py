"""T03: the traces of a federation show the messages between its parts."""
import collections
from vlib import build, fed, pbt

TECH = "fed"
KINDS = ["ACK", "FAILED", "TIMESTAMP", "NET", "LTC", "STOP_REQ", "STOP_REQ_REP", "STOP_GRN", "FED_ID", "PTAG", "TAG", "REJECT", "RESIGN", "PORT_ABS", "CLOSE_RQ",
         "TAGGED_MSG", "P2P_TAGGED_MSG", "MSG", "P2P_MSG", "ADR_AD", "ADR_QR"]
UNTAGGED = {"FED_ID", "ACK", "RESIGN", "FAILED", "REJECT", "ADR_QR", "ADR_AD", "MSG", "P2P_MSG"}   # as the tool that draws the messages has it


class C(pbt.Check):
    id = "T03"
    rule = ("a traced federation with at least two messages between federates; all records of its traces about messages are matched, those of the sender with those of the receiver")
    quick = dict(n=10**9, seconds=45)
    thorough = dict(n=10000000, seconds=600)

    def setup(self, tier):
        self.kinds = [fed.FedCheck(), fed.DecCheck()]
        self.exe = [build.fed("NP", trace=True), build.fed("NP", trace=True, dec=True)]

    def gen(self, d, i):
        k = i // 8 % 2
        c = self.kinds[k].gen(d, i)
        return c and dict(c, dec=k, trace=1)

    def run(self, case):
        if not hasattr(self, "exe"):
            self.setup("quick")
        if case is None:
            return pbt.Result(inconclusive="no federation")
        log = fed.execute(self.exe[case["dec"]], case)
        fail = log.failure()
        st = collections.Counter()
        st["federations of %d" % case["p"]["nf"]] += 1
        if fail and fail[0] in ("limit", "harness"):
            return pbt.Result(inconclusive=fail[0])
        bad = fail[1] if fail else self.judge(case, log, st)
        return pbt.Result(bad=bad, nontrivial=st["P2P_TAGGED_MSG"] + st["TAGGED_MSG"] + st["P2P_MSG"] >= 2, stats=dict(st))

    def judge(self, case, log, st):
        nf = case["p"]["nf"]
        names = {"rti": -1, **{str(f): f for f in range(nf)}}
        if set(log.trace) != set(names):
            return "files: there are trace files of %s" % sorted(log.trace)
        base = None
        sent, got = collections.defaultdict(list), collections.defaultdict(list)
        for name, me in names.items():
            ls = log.trace[name]
            if len(ls) < 2:
                return "files: the trace of %s is empty" % name
            for l in ls[1:]:
                if l[0] == "X":
                    return "files: the trace of %s: %s" % (name, " ".join(l[1:]))
                if l[0] == "S":
                    if base is None:
                        base = int(l[1])
                    if int(l[1]) != base:
                        return "start: the start time in the trace of %s is %s, not %s" % (name, l[1], base)
                if l[0] == "R":
                    e, src, dst, t, m, ph, odd = map(int, l[1:])
                    if e == 0 or e > 42:
                        return "records: the trace of %s has a record of type %d" % (name, e)
                    if odd:
                        return "records: the trace of %s has a record of type %d with a trigger" % (name, e)
                    kind = KINDS[(e - 1) % 21]
                    if src != me:
                        return "ids: the trace of %s has a %s record of %d" % (name, kind, src)
                    tag = None if kind in UNTAGGED else "never" if t == -2**63 else (t - base, m)
                    if e <= 21:
                        sent[kind, me, dst, tag].append(ph)
                    else:
                        got[kind, dst, me, tag].append(ph)
        return self.match(case, log, base, sent, got, st)

    def match(self, case, log, base, sent, got, st):
        last = {}   # when the last message that was received was sent, for every way
        left = []
        for k in sorted(set(sent) | set(got), key=str):
            s, g = sorted(sent.get(k, [])), sorted(got.get(k, []))
            st[k[0]] += len(s)
            if len(g) > len(s):
                return "match: %s from %d to %d with tag %s is sent %d times and received %d times" % (*k, len(s), len(g))
            for a, b in zip(s, g):
                if b < a:
                    return "times: %s from %d to %d with tag %s is received at %d, before it is sent at %d" % (*k, b, a)
            w = k[1:3]
            if g:
                last[w] = max(last.get(w, 0), s[len(g) - 1])
            if len(g) < len(s):
                left.append((k, len(s), len(g), s[len(g)]))
        for k, n, m, t in left:
            # the receiver may have ended, never the RTI
            if k[2] < 0 or last.get(k[1:3], 0) > t:
                return "match: %s from %d to %d with tag %s is sent %d times and received %d times" % (*k, n, m)
            st["not received"] += n - m
        return self.messages(case, log, sent, st)

    def messages(self, case, log, sent, st):
        """The messages in the traces are those that reactions sent."""
        p = case["p"]
        for f, r in enumerate(log.runs):
            end = log.end.get(f)
            if end is None:
                continue
            want = collections.Counter()
            for s in r.sent:
                c = p["net"][s[0]]
                if c["phys"]:
                    want["P2P_MSG", f, c["dst"], None] += 1
                    continue
                t = s[1:3] if c["delay"] is None else (s[1], s[2] + 1) if c["delay"] == 0 else (s[1] + c["delay"], 0)
                if t <= end[:2]:
                    want[("P2P_TAGGED_MSG", f, c["dst"], t) if case["dec"] else ("TAGGED_MSG", f, -1, t)] += 1
            have = {k: len(v) for k, v in sent.items() if k[1] == f and k[0] in ("P2P_MSG", "P2P_TAGGED_MSG", "TAGGED_MSG") and (k[3] is None or k[3] <= end[:2])}
            for k in sorted(set(want) | set(have), key=str):
                if want[k] != have.get(k, 0):
                    return "messages: %s from %d to %d with tag %s is %d times in the trace; reactions sent %d" % (*k, have.get(k, 0), want[k])
            st["messages compared with the program"] += sum(want.values())
        return None

    def show(self, case):
        return self.kinds[0].show(case) if hasattr(self, "kinds") else fed.FedCheck().show(case)

    def explain(self, case):
        self.setup("quick")
        log = fed.execute(self.exe[case["dec"]], case)
        print({k: v for k, v in case.items() if k != "p"}, log.failure())
        for n, ls in log.trace.items():
            for l in ls:
                print(n, l[0], (KINDS[(int(l[1]) - 1) % 21], "send" if int(l[1]) <= 21 else "receive", *l[2:]) if l[0] == "R" else l[1:])
        print(self.judge(case, log, collections.Counter()))


if __name__ == "__main__":
    pbt.main(C())
