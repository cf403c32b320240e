"""Generated federations for the RTI harness (harness/rti/rti.c), and the oracle over its log."""
import collections
from vlib import build, pbt, rp

NEVER, FOREVER = -(1 << 63), (1 << 63) - 1
TNEVER, TFOREVER = (NEVER, 0), (FOREVER, (1 << 32) - 1)
NODELAY = None
MS, US, S = 1000000, 1000, 1000000000


def plus(t, d):
    if t[0] == FOREVER:
        return TFOREVER
    if d is None:
        return t
    if d == 0:
        return (t[0], t[1] + 1)
    return (t[0] + d, 0)


def succ(t):
    return t if t[0] == FOREVER or t[0] == NEVER else (t[0], t[1] + 1)


def zdc_members(n, edges):
    """Nodes on a cycle of connections without delay. edges: (src, dst, delay)."""
    out = [set() for _ in range(n)]
    for u, v, d in edges:
        if d is None:
            out[u].add(v)
    res = set()
    for s in range(n):
        seen, todo = set(), list(out[s])
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            todo += out[v]
        if s in seen:
            res.add(s)
    return res


def gen_net(d):
    """How the network and the scheduler behave."""
    vt = [d.below(1 << 30), d.weighted([(3, 0), (3, 1), (3, 2), (1, 3)]), d.weighted([(4, 0), (2, 1), (1, 3)]), 0, d.int(1, 6), d.weighted([(3, 0), (1, 7)]),
          d.weighted([(4, 0), (1, 5)])]
    net = [d.weighted([(3, 0), (2, 50), (1, 400)]), d.weighted([(3, 0), (1, 50), (1, 300)]), d.weighted([(3, 0), (1, 30)]),
           d.weighted([(3, 0), (2, 20 * US), (1, 2 * MS)]), d.weighted([(5, 0), (1, 12), (1, 60)])]
    return vt, net


def gen_fed(d, stops=30, leaves=0, kinds=(0,), nmax=6, physical=15, sync=15, big=1, minf=2):
    n = minf + d.below(nmax - minf + 1)
    U = d.weighted([(3, MS), (2, US), (1, 1), (1, 100 * US)])
    fast = d.chance(3, 5)
    timeout = U * d.int(1, 25)
    feds, conns = [], []
    shape = d.weighted([(3, "any"), (2, "cycle"), (2, "chain"), (2, "cycles"), (1, "star"), (1, "sparse")])
    pairs = []
    if shape == "any":
        pairs = [(d.below(n), d.below(n)) for _ in range(d.int(1, 2 * n))]
    elif shape == "cycle":
        pairs = [(i, (i + 1) % n) for i in range(n)] + [(d.below(n), d.below(n)) for _ in range(d.below(n))]
    elif shape == "chain":
        pairs = [(i, i + 1) for i in range(n - 1)] + [(d.below(n), d.below(n)) for _ in range(d.below(3))]
    elif shape == "cycles":  # a few two-cycles, linked
        k = 0
        while k + 1 < n:
            pairs += [(k, k + 1), (k + 1, k)]
            if k:
                pairs.append((d.below(k), k + d.below(2)))
            k += 2
        pairs += [(d.below(n), d.below(n)) for _ in range(d.below(3))]
    elif shape == "star":
        pairs = [(0, i) for i in range(1, n)] + [(i, 0) for i in range(1, n) if d.chance(2, 3)]
    else:
        pairs = [(d.below(n), d.below(n)) for _ in range(d.int(0, n))]
    pairs = [(a, b) for a, b in pairs if a != b]
    bias = d.weighted([(3, [(4, None), (1, 0), (2, U), (1, 3 * U)]), (2, [(5, None)]), (2, [(1, None), (2, 0), (3, U), (2, 2 * U), (1, 10 * U)])])
    edges = [(a, b, d.weighted(bias)) for a, b in pairs]
    # a cycle without delays may exist, and the receiver then waits for its inputs; connections without delay have distinct levels
    zdc = zdc_members(n, edges)
    levels = list(range(len(edges)))
    for i in range(len(levels) - 1, 0, -1):
        j = i - d.below(i + 1)
        levels[i], levels[j] = levels[j], levels[i]
    ports = [0] * n
    for (a, b, dl), lv in zip(edges, levels):
        z = dl is None and a in zdc and b in zdc
        ab = 1 if z else int(d.chance(1, 5))
        conns.append(dict(src=a, dst=b, port=ports[b], delay=dl, level=lv, zdc=int(z), absent=ab,
                          pm=d.weighted([(3, 700), (1, 300), (1, 900), (1, 0)]), szmax=d.weighted([(4, 16), (1, 0), (2, 300), (big, 9000)])))
        ports[b] += 1
    for c in conns:
        if c["delay"] == 0 or c["delay"] == U:
            c["pm"] = min(c["pm"], 500)
    ltc_all = int(d.chance(1, 2))
    want_stop = d.below(100) < stops
    nleave = 0
    zdc_leaves = d.chance(1, 12)
    want_leave = d.below(100) < leaves
    for i in range(n):
        f = dict(rng=d.below(1 << 30), connect_at=d.weighted([(3, 0), (2, d.below(10 * MS)), (1, d.below(3 * S))]),
                 skew=d.weighted([(3, 0), (2, d.below(20 * MS)), (1, -d.below(20 * MS)), (1, d.below(2 * S))]),
                 exec_ns=d.weighted([(2, 0), (2, U), (1, 3 * U), (1, 20 * US)]), fast=int(fast),
                 phys=0, self_pm=d.weighted([(1, 0), (2, 500), (1, 900)]), nself=d.below(12), selfmax=U * d.int(1, 10),
                 stop_at=-1, stop2=-1, leave_at=-1, leave_kind=0, udp=65535, addr=int(d.chance(1, 6)))
        f["loc"] = sorted(set(U * d.below(30) for _ in range(d.below(6))))
        f["physt"] = []
        if not fast and d.below(100) < physical:
            f["phys"] = 1
            f["physt"] = sorted(d.below(30 * U + 1) for _ in range(d.below(4)))
        if want_stop and d.chance(1, 2):
            f["stop_at"] = d.below(6)
            if d.chance(1, 5):
                f["stop2"] = f["stop_at"] + d.below(4)
        if want_leave and nleave + 1 < n and d.chance(1, 2) and (i not in zdc or zdc_leaves):
            nleave += 1
            f["leave_at"] = d.below(5)
            f["leave_kind"] = d.pick(list(kinds))
        feds.append(f)
    for i, f in enumerate(feds):
        up = collections.OrderedDict()
        for c in conns:
            if c["dst"] == i:
                k = c["delay"]
                cur = up.get(c["src"], "x")
                if cur == "x" or (k is None) or (cur is not None and k < cur):
                    up[c["src"]] = k
        f["up"] = [[u, x] for u, x in up.items()]
        f["down"] = sorted(set(c["dst"] for c in conns if c["src"] == i))
    vt, net = gen_net(d)
    rargs = ["-n", str(n), "-i", "fed"]
    exch = 0
    sync_mode = d.below(100) < sync
    if sync_mode:
        mode = d.pick(["init", "on"])
        exch = d.int(1, 5)
        rargs += ["-c", mode, "period", str(d.pick([5 * MS, 50 * MS, S])), "exchanges-per-interval", str(exch)]
        for f in feds:
            if d.chance(4, 5):
                f["udp"] = 0 if mode == "init" else 17000 + d.below(100)
    else:
        rargs += ["-c", "off"]
    return dict(vt=vt, net=net, args=rargs, fid="fed", timeout=timeout, adv=d.weighted([(3, 10 * MS), (1, max(U, 20)), (1, max(3 * U, 20))]), ltc_all=ltc_all, exch=exch,
                horizon=400 * S, feds=feds, conns=conns, peers=[], unit=U)


def encode(p):
    o = []
    w = o.append
    o.extend(p["vt"])
    o.extend(p["net"])
    w(len(p["args"]))
    o.extend(p["args"])
    w(p["fid"])
    o.extend([p["timeout"], p["adv"], p["ltc_all"], p["exch"], p["horizon"]])
    w(len(p["feds"]))
    dl = lambda x: NEVER if x is None else x
    for f in p["feds"]:
        o.extend([f[k] for k in ("rng", "connect_at", "skew", "exec_ns", "fast", "phys", "self_pm", "nself", "selfmax", "stop_at", "stop2",
                                 "leave_at", "leave_kind", "udp", "addr")])
        for k in ("loc", "physt"):
            w(len(f[k]))
            o.extend(f[k])
        w(len(f["up"]))
        for u, x in f["up"]:
            o.extend([u, dl(x)])
        w(len(f["down"]))
        o.extend(f["down"])
    w(len(p["conns"]))
    for c in p["conns"]:
        o.extend([c["src"], c["dst"], c["port"], dl(c["delay"]), c["level"], c["zdc"], c["absent"], c["pm"], c["szmax"]])
    w(len(p["peers"]))
    for q in p["peers"]:
        o.extend([q["at"], q["mode"], len(q["s"])])
        for pause, b in q["s"]:
            o.extend([pause, len(b)])
            o.extend(b)
    return " ".join(map(str, o)) + "\n"


CODES = {42: "deadlock", 43: "livelock", 44: "limit", 45: "harness", 46: "harness", 47: "stuck", 124: "cpu time", 99: "asan", 98: "ubsan"}


class Log:
    def __init__(self, lines, code, err):
        self.code, self.err = code, err
        self.ev = []
        self.end = self.ret = False
        self.died = None
        for l in lines:
            f = l.split(" ")
            k = f[0]
            if k == "E":
                self.end = True
            elif k == "X":
                self.ret = int(f[1])
            elif k == "H":
                self.died = (int(f[1]), " ".join(f[2:]))
            elif k in ("B", "g", "r", "J", "p"):
                self.ev.append(f)
            elif k and k not in ("d", "@@END", "T"):
                try:
                    self.ev.append([k] + [int(x) for x in f[1:]])
                except ValueError:
                    self.ev.append(f)

    def failure(self):
        """(kind, text) or None. kind 'limit' is inconclusive."""
        if self.died:
            k = CODES.get(self.died[0], "died")
            return k, "%s: %s" % (k, self.died[1])
        if self.code != 0:
            if self.code in (99, 98):
                for l in self.err.split("\n"):
                    i = l.find("AddressSanitizer")
                    if i >= 0:
                        return "crash", "crash: " + " ".join(l[i:].split()[:3])
                    i = l.find("runtime error")
                    if i >= 0:
                        return "crash", "crash: " + l[i:].split("0x")[0][:160]
            if self.code in (124, -14):
                return "limit", "no answer in time"
            if self.code in (45, 46, -98, -99):
                return "limit", "harness: %d %s" % (self.code, self.err[-300:])
            last = [l for l in self.err.split("\n") if l.strip()]
            return "crash", "crash: the RTI process ended with status %d: %s" % (self.code, " | ".join(last[-3:])[-300:])
        if self.ret is False:
            last = [l for l in self.err.split("\n") if l.strip()]
            return "crash", "crash: the RTI exited by itself: %s" % " | ".join(last[-3:])[-300:]
        if self.ret != 0:
            return "crash", "crash: the RTI returned %d" % self.ret
        return None


_servers = {}


def execute(exe, p):
    s = _servers.get(exe)
    if s is None:
        s = _servers[exe] = rp.Server(exe)
        s_run = s.run
    r = RawRun(s, encode(p))
    return Log(*r)


def RawRun(server, text):
    """As rp.Server.run, without parsing."""
    import types
    box = {}
    orig = rp.Run
    try:
        rp.Run = lambda lines, code, err: box.setdefault("r", (lines, code, err))
        server.run(text)
    finally:
        rp.Run = orig
    return box["r"]


# ---------------------------------------------------------------- oracle
def tag(f, i):
    return (int(f[i]), int(f[i + 1]))


class Verdicts:
    """Goes through the log once and reports, per property, the first contradiction."""
    def __init__(self, p, log):
        self.p, self.log = p, log
        self.bad = collections.OrderedDict()
        self.st = collections.Counter()
        self.go()

    def say(self, prop, text):
        self.bad.setdefault(prop, text)

    def go(self):
        p, ev = self.p, self.log.ev
        n = len(p["feds"])
        conns = p["conns"]
        edges = {}
        for c in conns:
            k = (c["src"], c["dst"])
            x = edges.get(k, "x")
            if x == "x" or c["delay"] is None or (x is not None and c["delay"] < x):
                edges[k] = c["delay"]
        zdc = zdc_members(n, [(a, b, x) for (a, b), x in edges.items()])
        ups = [[(a, x) for (a, b), x in edges.items() if b == j] for j in range(n)]
        conn_of = {(c["dst"], c["port"]): c for c in conns}
        net = [None] * n
        ltc = [TNEVER] * n
        fin = [TNEVER] * n           # last tag executed completely
        cur = [TNEVER] * n
        gone = [False] * n
        gonek = [None] * n
        tags = [TNEVER] * n
        ptags = [TNEVER] * n
        rtags, rptags = [TNEVER] * n, [TNEVER] * n
        sent = [[] for _ in range(n)]           # per destination: (tag, src, port, hash, size, state) state 0 sent 1 written
        fifo = collections.defaultdict(collections.deque)     # (src, dst) messages and absences sent and not yet written by the RTI
        rfifo = collections.defaultdict(collections.deque)    # dst: written and not yet received
        partial = set()
        proposals, starts, joined = {}, {}, {}
        stopq, stopreply, stopgrants, stopfwd = {}, {}, collections.defaultdict(list), collections.defaultdict(list)
        told = set()
        status = collections.defaultdict(lambda: TNEVER)
        self.finals = {}
        self.left = {}
        self.joined = joined
        self.starts = starts
        self.proposals = proposals
        st = self.st

        def bound():
            A = []
            for k in range(n):
                if gone[k]:
                    A.append(TFOREVER)
                    continue
                own = net[k] if net[k] is not None else (0, 0)
                for m in sent[k]:
                    if m[0] > fin[k] and m[0] < own:
                        own = m[0]
                A.append(max(succ(ltc[k]), own))
            changed = True
            while changed:
                changed = False
                for k in range(n):
                    if gone[k]:
                        continue
                    for u, x in ups[k]:
                        t = max(succ(ltc[k]), plus(A[u], x))
                        if t < A[k]:
                            A[k] = t
                            changed = True
            return A

        def grant(j, t, prov):
            st["PTAG" if prov else "TAG"] += 1
            what = "%s %s to federate %d" % ("PTAG" if prov else "TAG", t, j)
            if prov:
                if t <= tags[j] or t <= ptags[j]:
                    self.say("F01", "monotone: %s after TAG %s and PTAG %s" % (what, tags[j], ptags[j]))
                ptags[j] = t
            else:
                if t <= tags[j] or t < ptags[j]:
                    self.say("F01", "monotone: %s after TAG %s and PTAG %s" % (what, tags[j], ptags[j]))
                tags[j] = t
            A = bound()
            for u, x in ups[j]:
                b = plus(A[u], x)
                if b == TFOREVER:
                    continue
                st["bounds"] += 1
                eq_ok = prov and x is None and u in zdc and j in zdc
                if b < t or (b == t and not eq_ok):
                    self.say("F01", "grant: %s although federate %d may still send it a message with tag %s (NET %s, LTC %s)" % (what, u, b, net[u], ltc[u]))
                if b == t:
                    st["tight grants"] += 1
            for m in sent[j]:
                if m[5] == 0 and not (gone[m[1]] and gonek[m[1]]):
                    c = conn_of[j, m[2]]
                    if m[0] < t or (m[0] == t and not (prov and c["zdc"])):
                        self.say("F01", "pending: %s while a message with tag %s from federate %d has not been forwarded" % (what, m[0], m[1]))

        for f in ev:
            k = f[0]
            if k == "N":
                t = (f[2], f[3])
                net[f[1]] = t
            elif k == "L":
                ltc[f[1]] = max(ltc[f[1]], (f[2], f[3]))
            elif k == "x":
                cur[f[1]] = (f[2], f[3])
                st["tags"] += 1
            elif k == "e":
                fin[f[1]] = (f[2], f[3])
                sent[f[1]] = [m for m in sent[f[1]] if m[0] > fin[f[1]] or m[5] == 0]
            elif k == "S":
                m = [(f[4], f[5]), f[1], f[3], f[6], f[7], 0]
                st["messages"] += 1
                sent[f[2]].append(m)
                fifo[f[1], f[2]].append(("M", m))
            elif k == "Z":
                st["absent"] += 1
                fifo[f[1], f[2]].append(("Z", ((f[4], f[5]), f[3])))
            elif k == "m":
                partial.add(f[1])
            elif k == "V":
                gone[f[1]] = True
                gonek[f[1]] = f[2]
                self.left[f[1]] = f[2]
                st["left"] += 1
            elif k == "F":
                self.finals[f[1]] = (f[2], f[3])
            elif k == "s":
                proposals[f[1]] = f[2]
            elif k == "a":
                starts[f[1]] = (f[2], f[3])
            elif k == "Q":
                stopq[f[1]] = (f[2], f[3])
                st["stop requests"] += 1
            elif k == "P":
                stopreply[f[1]] = (f[2], f[3])
            elif k == "J":
                joined[int(f[1])] = f[2:]
                if f[2] != "ack":
                    self.say("F07", "refused: federate %s cannot join: %s" % (f[1], " ".join(map(str, f[2:]))))
            elif k == "g":
                j, w = int(f[1]), f[2]
                if w in "TP":
                    grant(j, tag(f, 3), w == "P")
                elif w in "MZ":
                    t, port, dst = tag(f, 3), int(f[5]), int(f[6])
                    if dst != j:
                        self.say("F06", "routing: a message for federate %d is sent to federate %d" % (dst, j))
                    c = conn_of.get((j, port))
                    if c is None:
                        self.say("F06", "routing: a message for an unknown port %d of federate %d" % (port, j))
                        continue
                    q = fifo[c["src"], j]
                    if not q:
                        self.say("F06", "invented: a message to federate %d port %d tag %s that was not sent" % (j, port, t))
                        continue
                    kk, m = q[0]
                    if (kk, m[0], m[2] if kk == "M" else m[1]) != (w, t, port):
                        self.say("F06", "order: federate %d is sent %s tag %s port %d, the next one federate %d sent it is %s %s" % (j, w, t, port, c["src"], kk, m))
                        # resynchronise
                        while q and (q[0][0], q[0][1][0], q[0][1][2] if q[0][0] == "M" else q[0][1][1]) != (w, t, port):
                            q.popleft()
                        if not q:
                            continue
                        kk, m = q[0]
                    q.popleft()
                    if w == "M":
                        if t <= tags[j]:
                            self.say("F01", "late: a message with tag %s is forwarded to federate %d after its TAG %s" % (t, j, tags[j]))
                        if t < ptags[j] or (t == ptags[j] and not c["zdc"]):
                            self.say("F01", "late: a message with tag %s from federate %d is forwarded to federate %d after its PTAG %s" % (t, c["src"], j, ptags[j]))
                        m[5] = 1
                        if m[0] <= fin[j]:
                            sent[j] = [x for x in sent[j] if x is not m]
                    rfifo[j].append((w, m))
                elif w == "Q":
                    stopfwd[j].append(tag(f, 3))
                elif w == "G":
                    stopgrants[j].append(tag(f, 3))
                    st["stop grants"] += 1
            elif k == "r":
                j, w = int(f[1]), f[2]
                t = tag(f, 3) if len(f) > 4 else None
                if w == "T":
                    if t <= rtags[j] or t < rptags[j]:
                        self.say("F01", "monotone: federate %d receives TAG %s after %s and %s" % (j, t, rtags[j], rptags[j]))
                    rtags[j] = t
                elif w == "P":
                    if t <= rtags[j] or t <= rptags[j]:
                        self.say("F01", "monotone: federate %d receives PTAG %s after %s and %s" % (j, t, rtags[j], rptags[j]))
                    rptags[j] = t
                elif w in "MZ":
                    port = int(f[5])
                    c = conn_of.get((j, port))
                    status[j, port] = max(status[j, port], t)
                    if w == "M" and c is not None:
                        if t <= rtags[j] or t < rptags[j] or (t == rptags[j] and not c["zdc"]):
                            self.say("F01", "late: federate %d receives a message with tag %s on port %d after TAG %s and PTAG %s" % (j, t, port, rtags[j], rptags[j]))
                        if t < cur[j] or (t == cur[j] and not c["zdc"]):
                            self.say("F01", "tardy: federate %d receives a message with tag %s on port %d at its tag %s" % (j, t, port, cur[j]))
                    q = rfifo[j]
                    if not q:
                        self.say("F06", "invented: federate %d receives a message on port %d tag %s" % (j, port, t))
                        continue
                    kk, m = q.popleft()
                    if w == "M":
                        if kk != "M" or (t, port, int(f[8]), int(f[7])) != (m[0], m[2], m[3], m[4]):
                            self.say("F06", "content: federate %d receives %s, sent was %s %s" % (j, f[2:], kk, m))
                elif w == "G":
                    c = (int(f[5]), int(f[6]))
                    self.st["granted stops"] += 1
                    told.add(j)
                    if t <= c:
                        self.say("F05", "past: federate %d is at %s when the stop at %s is granted" % (j, c, t))
            elif k == "B":
                self.say("F02", "protocol: federate %s: %s" % (f[1], " ".join(f[2:])))
        # a federate that waits under a PTAG for the status of a port whose sender has left
        self.orphan = None
        for c in conns:
            j, u = c["dst"], c["src"]
            if c["zdc"] and gone[u] and not gone[j] and cur[j] > fin[j] and rptags[j] == cur[j] > rtags[j] and status[j, c["port"]] < cur[j]:
                self.orphan = (j, u, cur[j])
        # the start time
        if starts:
            vals = set(a for a, _ in starts.values())
            if len(vals) > 1:
                self.say("F04", "start: federates are given different start times %s" % sorted(vals))
            if len(proposals) != n:
                self.say("F04", "start: a start time is given when only %d of %d federates have proposed one" % (len(proposals), n))
            elif vals != {max(proposals.values()) + S}:
                self.say("F04", "start: the start time is %s, the latest proposal is %d" % (sorted(vals), max(proposals.values())))
        # stopping
        anyg = set(g for j in stopgrants for g in stopgrants[j])
        if len(anyg) > 1:
            self.say("F05", "stop: different stop tags %s" % sorted(anyg))
        for j in stopgrants:
            if len(stopgrants[j]) > 1:
                self.say("F05", "stop: federate %d is granted a stop %d times" % (j, len(stopgrants[j])))
        if anyg:
            g = min(anyg)
            asked = [(a, b) for a, b in list(stopq.items()) + list(stopreply.items()) if not gone[a] or stopgrants.get(a)]
            for a, b in asked:
                if b > g:
                    self.say("F05", "stop: the stop is granted at %s although federate %d asked for %s" % (g, a, b))
            for j in range(n):
                if not stopgrants.get(j) and not gone[j]:
                    self.say("F05", "stop: federate %d is not told of the stop at %s" % (j, g))
            have = set(stopq.values()) | set(stopreply.values())
            if g not in have:
                self.say("F05", "stop: the stop tag %s was proposed by no federate (%s)" % (g, sorted(have)))
        elif stopq:
            if any(not gone[a] or gonek[a] is None for a in stopq) :
                self.say("F05", "stop: the requests of %s are never granted" % sorted(stopq))
        self.stop_tag = min(anyg) if anyg else None
        self.stopq = stopq
        for j in range(n):
            want = (p["timeout"], 0)
            if j in told and self.stop_tag < want:
                want = self.stop_tag
            if j not in self.left or (self.left[j] == 0 and j in self.finals):
                if j not in self.finals:
                    self.say("F02", "unfinished: federate %d does not reach its last tag" % j)
                elif self.finals[j] != want:
                    self.say("F05", "final: federate %d stops at %s, not at %s" % (j, self.finals[j], want))
        # everything was delivered
        for (u, v), q in fifo.items():
            if q and not gonek_bad(gonek[u]) and not early(gonek, self.finals, v):
                m = q[0]
                if q[0][0] == "M" and m[1][0] <= self.finals.get(v, TNEVER):
                    self.say("F06", "lost: a message with tag %s from federate %d to federate %d is never forwarded" % (m[1][0], u, v))
        for v, q in rfifo.items():
            if any(x[0] == "M" and x[1][0] <= self.finals.get(v, TNEVER) for x in q):
                self.say("F06", "lost: federate %d does not receive a message forwarded to it" % v)


def gonek_bad(k):
    return k in (1, 2, 3)


def early(gonek, finals, v):
    return gonek[v] is not None and v not in finals


class RtiCheck(pbt.Check):
    feature = {}
    prop = None
    rule = "at least two grants that had to be justified against an upstream federate"
    quick = dict(n=1000000, seconds=55)
    thorough = dict(n=10000000, seconds=600)
    variants = ["plain", "plain", "asan"]
    assumptions = ["the federate side of the protocol is a model written from federate.c (when it sends NET, LTC, absences, stop replies)"]

    def setup(self, tier):
        self.exe = {"plain": build.rti(), "asan": build.rti(asan=True)}

    def gen(self, d, i):
        p = gen_fed(d, **self.feature)
        p["variant"] = self.variants[i % len(self.variants)]
        return p

    def run(self, p):
        if not hasattr(self, "exe"):
            self.setup("quick")
        log = execute(self.exe[p["variant"]], p)
        fail = log.failure()
        if fail and fail[0] in ("limit", "harness"):
            return pbt.Result(inconclusive=fail[1][:80])
        v = Verdicts(p, log)
        bad = self.judge(p, log, v, fail)
        st = dict(v.st)
        for f in p["feds"]:
            if f["leave_at"] >= 0:
                st["leavers"] = st.get("leavers", 0) + 1
        return pbt.Result(bad=bad, nontrivial=self.nontrivial(p, log, v), stats=st)

    def nontrivial(self, p, log, v):
        return v.st["bounds"] >= 2

    def judge(self, p, log, v, fail):
        """What happens when the RTI dies or a departure blocks others is judged by F02."""
        if fail and (v.orphan or fail[0] not in ("stuck", "deadlock", "livelock")):
            return None
        return v.bad.get(self.prop)

    def show(self, p):
        return dict(federates=len(p["feds"]), connections=[[c["src"], c["dst"], c["delay"]] for c in p["conns"]], timeout=p["timeout"], net=p["net"],
                    stops=[f["stop_at"] for f in p["feds"]], leaves=[[f["leave_at"], f["leave_kind"]] for f in p["feds"]])

    def explain(self, p):
        if not hasattr(self, "exe"):
            self.setup("quick")
        log = execute(self.exe[p["variant"]], p)
        for c in p["conns"]:
            print(c)
        for i, f in enumerate(p["feds"]):
            print(i, {k: x for k, x in f.items() if x not in (0, -1)})
        for e in log.ev[-400:]:
            print("  ", *e)
        print(log.code, log.ret, log.died, log.err[-2000:])
        print(log.failure())
        print(Verdicts(p, log).bad)
