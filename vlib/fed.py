"""Federations of generated reactor programs: a program is split into federates, whose connections go through the real
RTI and the real federate runtime, and every federate must do what the program does as a whole."""
import collections
import json
import re
from vlib import build, gen, pbt, rp, rti, rxcheck

MS, US = 1000000, 1000
STOPMSG = "stop: messages sent at the agreed stop tag are lost"


def scc(n, edges):
    reach = [[i == j for j in range(n)] for i in range(n)]
    for a, b in edges:
        reach[a][b] = True
    for k in range(n):
        for i in range(n):
            if reach[i][k]:
                for j in range(n):
                    reach[i][j] = reach[i][j] or reach[k][j]
    return lambda a, b: reach[a][b] and reach[b][a]


def split(d, p, nf, U, nodelay=2, env=None, forced=(), physical=0):
    """Turns the connections between reactors of different federates into connections over the network."""
    R = p["reactors"]
    for i, r in enumerate(R):
        r["env"] = env[i] if env else d.below(nf)
    X = p["reactions"]
    p["net"] = []
    edges = []
    for ii in range(len(p["ins"])):
        inp = p["ins"][ii]
        dst = R[inp["r"]]["env"]
        for c, s in enumerate(inp["src"]):
            if not s:
                continue
            o = p["outs"][s[0]]
            src = R[o["r"]]["env"]
            if src == dst:
                continue
            if o["pt"] == 2:
                inp["src"][c] = None
                continue
            n = len(p["net"])
            ph = int(not p["opts"]["fast"] and d.chance(physical, 12))
            delay = d.weighted([(nodelay if ii not in forced else 0, None), (1, 0), (1, U), (1, 2 * U), (1, 5 * U)])
            port = sum(1 for k in p["net"] if k["dst"] == dst)
            rs, rr = len(R), len(R) + 1
            R.append(dict(env=src))
            R.append(dict(env=dst))
            p["ins"].append(dict(r=rs, pt=o["pt"], w=1, mut=0, sparse=0, src=[list(s)]))
            p["actions"].append(dict(r=rr, phys=ph, min=0, spacing=0, policy=0, pt=1, mode=-1, net=1))
            p["outs"].append(dict(r=rr, pt=o["pt"], w=1))
            i2, a, o2 = len(p["ins"]) - 1, len(p["actions"]) - 1, len(p["outs"]) - 1
            base = dict(deadline=-1, startup=0, shutdown=0, reset=0, hand=[], mode=-1, last=-1, level=0, prio=0)
            xs = len(X) + 1
            X.append(dict(base, r=rs, startup=1, trig=[], read=[], eff=[], body=[[33, 1, 0, 0]], net=2))
            X.append(dict(base, r=rs, trig=[[0, i2]], read=[[0, i2]], eff=[], body=[[30, 1, 0, n]], net=1))
            X.append(dict(base, r=rs, trig=[], read=[[0, i2]], eff=[], body=[[31, 1, 0, n]], net=2))
            X.append(dict(base, r=rr, trig=[[1, a]], read=[[1, a]], eff=[o2], body=[[32, 1, 0, n, o2]], net=3))
            if ph and delay is None and ii in forced:
                delay = 0
            if delay is None and not ph:
                edges += [[xs, xs + 2], [xs + 1, xs + 2]]
            inp["src"][c] = [o2, 0]
            p["net"].append(dict(action=a, src=src, dst=dst, port=port, delay=delay, zdc=0, phys=ph, ab=d.chance(1, 4), xab=xs + 1))
    p["edges"] = edges
    same = scc(nf, [(c["src"], c["dst"]) for c in p["net"] if c["delay"] is None and not c["phys"]])
    zero = [c for c in p["net"] if c["delay"] is None and not c["phys"]]
    for c in p["net"]:   # as the compiler does: all connections without delay from a federate in some zero-delay cycle
        c["zdc"] = int(c in zero and any(e["src"] == c["src"] and same(e["src"], e["dst"]) for e in zero))
        if not (c["zdc"] or c["ab"]) or c["phys"]:
            X[c["xab"]]["body"] = []   # no such reaction
            X[c["xab"] - 2]["body"] = []
            X[c["xab"] - 2]["startup"] = 0
    for f in range(nf):
        k = 0
        for c in p["net"]:
            if c["src"] == f and X[c["xab"] - 2]["body"]:
                X[c["xab"] - 2]["body"][0][3] = k
                k += 1
    p["nf"] = nf
    return rp.levels(p)


def federation(d, f, U):
    """Reactors of a few federates that keep sending to each other, in cycles too. Returns the program and the intended
    federate of each reactor, and the delays of the connections that must have one."""
    nf = d.int(2, 6)
    n = nf
    p = dict(opts={}, envs=1, reactors=[], modes=[], actions=[], timers=[], outs=[], ins=[], wds=[], reactions=[], resets=[], inj=[], U=U)
    env = []
    for k in range(nf):
        for _ in range(d.pick([1, 1, 2])):
            env.append(k)
            p["reactors"].append({})
    X = p["reactions"]
    order = []
    for r in range(len(env)):
        order += [r] * d.pick([1, 2, 1, 3])
    for i in range(len(order) - 1, 0, -1):   # the reactions of different federates depend on each other in any order
        j = d.below(i + 1)
        order[i], order[j] = order[j], order[i]
    for r in order:
        X.append(dict(r=r, deadline=-1, startup=int(d.chance(1, 6)), shutdown=int(d.chance(1, 8)), reset=0, trig=[], read=[], eff=[], body=[], hand=[],
                      mode=-1, last=-1, level=0, prio=0))
    per = {r: [i for i in range(len(X)) if X[i]["r"] == r] for r in range(len(env))}
    shape = d.pick(["any", "cycle", "chain", "pair", "star"])
    if shape == "cycle":
        pairs = [(i, (i + 1) % n) for i in range(n)] + [(d.below(n), d.below(n)) for _ in range(d.below(n))]
    elif shape == "chain":
        pairs = [(i, i + 1) for i in range(n - 1)] + [(d.below(n), d.below(n)) for _ in range(d.below(4))]
    elif shape == "pair":
        pairs = [(0, 1), (1, 0)] * d.int(1, 2) + [(d.below(n), d.below(n)) for _ in range(d.below(n))]
    elif shape == "star":
        pairs = [(0, i) for i in range(1, n)] + [(i, 0) for i in range(1, n) if d.chance(2, 3)]
    else:
        pairs = [(d.below(n), d.below(n)) for _ in range(d.int(1, 2 * n))]
    forced = {}
    nread = {}
    for a, b in pairs:
        w = d.pick([i for i in range(len(X)) if env[X[i]["r"]] == a])
        cand = [i for i in range(len(X)) if env[X[i]["r"]] == b and i != w]
        if not cand:
            continue
        later = [i for i in cand if i > w]
        x = d.pick(later) if later and d.chance(3, 4) else d.pick(cand)
        if x < w and a == b:
            continue
        own = [o for o in X[w]["eff"]]
        if own and d.chance(1, 3):
            o = d.pick(own)
        else:
            o = len(p["outs"])
            p["outs"].append(dict(r=X[w]["r"], pt=d.pick([0, 0, 1]), w=d.pick([1, 1, 1, 2])))
            X[w]["eff"].append(o)
        ii = len(p["ins"])
        pt = p["outs"][o]["pt"]
        p["ins"].append(dict(r=X[x]["r"], pt=pt, w=1, mut=int(bool(pt and d.chance(1, 3))), sparse=0, src=[[o, d.below(p["outs"][o]["w"])]]))
        X[x]["trig"].append([0, ii])
        X[x]["read"].append([0, ii])
        nread[ii] = 1
        if x < w:
            forced[ii] = 1
    for _ in range(d.int(1, 3)):
        x = d.pick(range(len(X)))
        p["timers"].append(dict(r=X[x]["r"], offset=d.pick([0, 1, 2, 5]) * U, period=d.pick([2, 1, 3, 5, 7, 0]) * U, mode=-1))
        X[x]["trig"].append([2, len(p["timers"]) - 1])
    for _ in range(d.int(0, 3)):
        x = d.pick(range(len(X)))
        phys = int(f["phys"] and d.chance(f["phys"], 100))
        p["actions"].append(dict(r=X[x]["r"], phys=phys, min=d.pick([0, 1, 2, 5]) * U, spacing=0, policy=0, pt=d.pick([1, 3]) if phys else d.pick([0, 0, 1, 3]), mode=-1))
        X[x]["trig"].append([1, len(p["actions"]) - 1])
        X[x]["read"].append([1, len(p["actions"]) - 1])
    for i, x in enumerate(X):
        sets = [([1] + ([1, 0] if d.chance(1, 2) else [2, d.below(2)]) + [o, c]) if p["outs"][o]["pt"] == 0 or d.chance(1, 2) else
                ([2] + ([1, 0] if d.chance(1, 2) else [2, d.below(2)]) + [o, c, d.pick([3, 1, 20, 0, 7, 300, 1200])])
                for o in x["eff"] for c in range(p["outs"][o]["w"]) if d.chance(3, 4)]
        more = gen.body(d, p, i, dict(gen.DEF, **f), U, nread)
        first = [o for o in more if o[0] == 5]
        late = [o for o in more if o[0] == 16]
        x["body"] = first + sets + [o for o in more if o[0] not in (5, 16)] + late
    p["opts"] = dict(timeout=d.pick([10, 30, 3, 1, 20]) * U, keep=1, fast=int(not f["phys"] and d.chance(1, 2)))
    return p, nf, env, forced


def injectors(d, p, U):
    """Threads of the applications that schedule physical actions, or ask for a stop."""
    of = lambda i: p["reactors"][p["actions"][i]["r"]]["env"]
    phys = [i for i, a in enumerate(p["actions"]) if a["phys"] and i not in gen.netactions(p)]
    for fd in sorted({of(i) for i in phys}):
        acts = [i for i in phys if of(i) == fd]
        for _ in range(d.pick([1, 1, 2])):
            t, ev = 0, []
            for _ in range(d.size(1, 6)):
                t = max(0, t + d.pick([0, 1, 2, 3, 7]) * U + d.pick([0, 0, 0, 1, -1]))
                a = d.pick(acts)
                ev.append([t, d.pick([0, 1, 2]) if p["actions"][a]["pt"] == 1 else 0, a, d.pick([0, 0, 1, 2, 5]) * U, 1024 * (len(p["inj"]) + 1) + len(ev) + 1])
            p["inj"].append(ev)


def stopper(d, p, U):
    for _ in range(d.pick([1, 1, 2])):
        t = max(0, d.pick([3, 0, 1, 2, 5, 10, 30]) * U + d.pick([0, 0, 1, -1]))
        p["inj"].append([[t, 10, 0, d.below(p["nf"]), 0]])


def payload(act, w):
    return rp.arr(w, 17 + (w % (1 << 64)) % 5) if act["pt"] == 1 else rp.Val([w])


def physical(p, runs, T, fast):
    """What the physical actions did: a list of events for the reference, or a contradiction of what was asked for."""
    ext = []
    slack = 10000
    for f, r in enumerate(runs):
        calls = {}
        for inj, k, a, before, after, delay, val, et, ms, kind in r.inj:
            if not p["actions"][a]["phys"]:
                continue
            if (a, val) in calls:
                return None, None   # a value that two calls have
            calls[(a, val)] = [before, after, p["actions"][a]["min"] + max(0, delay), (et, ms) if et >= 0 else None, None]
        seen = {}
        for a, et, ms, phys, val, hv, xi in r.phys:
            if p["reactors"][p["actions"][a]["r"]]["env"] != f or a in gen.netactions(p):
                continue
            if seen.setdefault((a, (et, ms)), val) != val or not hv:
                return None, "physical: action %d has the values %s and %s at tag %s" % (a, seen[(a, (et, ms))], val, (et, ms))
            if et > phys + slack:
                return None, "physical: action %d executes at %d when physical time is %d" % (a, et, phys)
        for (a, t), val in seen.items():
            c = calls.get((a, val))
            if not c or c[4]:
                return None, "physical: action %d is present at %s with the value %s, which no call scheduled, or which was delivered before" % (a, t, val)
            c[4] = t
            if not c[0] + c[2] <= t[0] <= c[1] + c[2] + slack:
                return None, "physical: action %d scheduled between %d and %d with a delay of %d is present at %s" % (a, c[0], c[1], c[2], t)
            if c[3] and t <= c[3]:
                return None, "physical: action %d scheduled by a reaction at %s is present at %s" % (a, c[3], t)
            ext.append((t, a, 1, payload(p["actions"][a], val)))
        for (a, val), c in sorted(calls.items()):
            if not c[4] and c[1] + c[2] + slack < T[f][0]:
                return None, "physical: the event of action %d scheduled at %d (delay %d, value %s) was never delivered; the federate ended at %s" % (a, c[0], c[2], val, T[f])
    return ext, None


def receipts(p, runs, T, st):
    """The messages received over physical connections: events for the reference. A connection delivers its messages in
    order, and never before the delay has passed since they were sent; Returns (events, contradiction)."""
    ext = []
    for n, c in enumerate(p["net"]):
        if not c["phys"]:
            continue
        got = sorted((g for g in runs[c["dst"]].got if g[0] == n), key=lambda g: g[1])
        sent = [s for s in runs[c["src"]].sent if s[0] == n]
        st["physical connections"] += 1
        st["messages over physical connections"] += len(got)
        if len(got) > len(sent):
            return None, "physical: %d messages were sent over connection %d, %d received" % (len(sent), n, len(got))
        for k, (_, t, phys, v, ln) in enumerate(got):
            if len(v) != ln:
                return None, "physical: a message over connection %d at %s has %d of %d elements" % (n, t, len(v), ln)
            if t[0] < sent[k][3] + (c["delay"] or 0):
                return None, "physical: message %d over connection %d was sent at %d and received at %s; the delay is %d" % (k, n, sent[k][3], t, c["delay"] or 0)
            ext.append((t, c["action"], 1, rp.Val(v)))
    return ext, None


def delivered(case, ref, runs, T, early):
    """Compares what was received over physical connections with what the reference sent."""
    p = case["p"]
    for n, c in enumerate(p["net"]):
        if not c["phys"]:
            continue
        got = sorted((g for g in runs[c["dst"]].got if g[0] == n), key=lambda g: g[1])
        out = [s for s in runs[c["src"]].sent if s[0] == n]
        sent = ref.physnet.get(n, [])
        for k, g in enumerate(got):
            tag = out[k][1:3]   # a tag may be a little ahead of physical time, hence beyond the stop tag of the others
            if tag > ref.stop or (early and tag >= ref.stop):
                break
            if k >= len(sent) or list(g[3]) != list(sent[k][1]):
                return "physical: message %d received over connection %d, at %s, is not what was sent" % (k, n, g[1])
        if not early and len(got) < len(sent) and not any(case["net"][:5]) and not any(case["vt"][1:7]):
            for s in out[len(got):]:
                if s[3] + (c["delay"] or 0) + 100000 < T[c["dst"]][0]:
                    return "physical: the message sent over connection %d at %d was never received; the receiver ended at %s" % (n, s[3], T[c["dst"]])
    return None


def neighbours(p):
    out = []
    for f in range(p["nf"]):
        up, down = {}, []
        for c in p["net"]:
            if c["phys"]:
                continue
            if c["dst"] == f:
                d = -1 if c["delay"] is None else c["delay"]
                up[c["src"]] = min(up.get(c["src"], d), d)
            if c["src"] == f and c["dst"] not in down:
                down.append(c["dst"])
        out.append((sorted(up.items()), sorted(down)))
    return out


def encode(case):
    p = case["p"]
    t = case["vt"] + case["net"] + [0, 0] * (len(case["net"]) == 5)
    args = ["-i", "Fed", "-n", str(p["nf"]), "-c", case["sync"]] + ["-t"] * case.get("trace", 0)
    out = t + [len(args)] + args + ["Fed", case["horizon"], p["nf"]]
    o = p["opts"]
    for f in case["feds"]:
        out += [f["at"], o["timeout"], int(o["fast"]), int(o.get("keep", 0)), f["workers"]]
    text = rp.encode(p, {}).split(" ")[11:]
    net = [len(p["net"])]
    for c in p["net"]:
        net += [c["action"], c["src"], c["dst"], c["port"], -1 if c["delay"] is None else c["delay"], c["zdc"], int(c["phys"]), c.get("staa", 0)]
    net.append(p["nf"])
    for f, (up, down) in enumerate(neighbours(p)):
        net.append(len(up))
        for i, dl in up:
            net += [i, dl]
        net += [len(down)] + down + [case["feds"][f].get("physmin", -1), case["feds"][f].get("sta", 0)]
    z = [i for i, x in enumerate(p["reactions"]) if x.get("stp")]
    net += [len(z)] + z
    return " ".join(map(str, out + text + net))


class Log:
    def __init__(self, lines, code, err, nf):
        self.code, self.err = code, err
        per = [[] for _ in range(nf)]
        self.lines = lines
        self.died = self.exit = None
        self.trace = {}
        self.ret = {}
        self.end = {}
        self.rti = None
        self.complete = False
        for l in lines:
            f = l.split(" ")
            if not l:
                continue
            if f[0].isdigit():
                per[int(f[0])].append(l[len(f[0]) + 1:])
                if f[1] == "R":
                    self.end[int(f[0])] = (int(f[3]), int(f[4]), int(f[5]))
            elif f[0] == "t":
                self.trace.setdefault(f[1], []).append(f[2:])
            elif f[0] == "H":
                self.died = (int(f[1]), " ".join(f[2:]))
            elif f[0] == "x":
                self.exit = (int(f[1]), int(f[2]))
            elif f[0] == "Z":
                self.ret[int(f[1])] = int(f[2])
            elif f[0] == "X":
                self.rti = int(f[1])
            elif f[0] == "E":
                self.complete = True
        self.runs = [rp.Run(x, 0, "") for x in per]

    def failure(self):
        if self.died:
            k = rti.CODES.get(self.died[0], "died")
            return k, "%s: %s" % (k, self.died[1])
        last = [l for l in self.err.split("\n") if l.strip()]
        if self.exit:
            return "exit", "exit: %s exited with status %d: %s" % ("federate %d" % self.exit[0] if self.exit[0] >= 0 else "a thread of the federation", self.exit[1], " | ".join(last[-3:])[-300:])
        if self.code != 0:
            if self.code in (99, 98):
                for l in last:
                    i = l.find("AddressSanitizer")
                    if i >= 0:
                        return "crash", "crash: " + " ".join(l[i:].split()[:3])
                    i = l.find("runtime error")
                    if i >= 0:
                        return "crash", "crash: " + l[i:].split("0x")[0][:160]
            if self.code in (124, -14, -9):
                return "limit", "no answer in time"
            if self.code in (45, 46, -98, -99):
                return "limit", "harness: %d %s" % (self.code, self.err[-300:])
            return "crash", "crash: ended with status %d: %s" % (self.code, " | ".join(last[-3:])[-300:])
        if not self.complete:
            return "limit", "no end of log"
        if self.rti != 0:
            return "exit", "exit: the RTI returned %s" % self.rti
        for f, r in self.ret.items():
            if r != 0:
                return "exit", "exit: federate %d returned %d" % (f, r)
        return None


def execute(exe, case):
    s = rti._servers.get(exe)
    if s is None:
        s = rti._servers[exe] = rp.Server(exe)
    return Log(*rti.RawRun(s, encode(case)), case["p"]["nf"])


class FedCheck(pbt.Check):
    feats = {}
    stop = 0

    def setup(self, tier):
        self.exe = {"NP": build.fed("NP")}

    def gen(self, d, i):
        for _ in range(30):
            f = dict(reactors=7, reactions=14, outs=8, ins=9, actions=3, timers=3, width=3, stop=0, phys=0, ops=4, work=10, startup=1, shutdown=1,
                     tokens=1, policies=1, delays=0, maxsteps=300, scale=(MS, US, 100 * US), fast=50)
            f.update(self.feats)
            f["phys"] = d.pick([0, 0, 60])
            f["stop"] = d.pick([0, 0, 5, 20])
            if f["stop"]:
                f["policies"] = 0   # whether an event beyond the stop tag counts for the spacing depends on when the stop is agreed
            env, forced = None, ()
            if f["phys"] or d.chance(3, 4):
                p, nf, env, forced = federation(d, f, d.pick(f["scale"]))
            else:
                p = gen.program(d, f, finish=False)
                if p["opts"]["timeout"] < 0:
                    p["opts"]["timeout"] = 10 * p["U"]
                p["opts"]["keep"] = 1   # a federate never stops for lack of events
                nf = d.int(2, 6)
            if not split(d, p, nf, p["U"], env=env, forced=forced, nodelay=d.pick([2, 5, 1]), physical=d.pick([0, 2, 0, 8, 0])) or (not p["net"] and d.chance(7, 8)):
                continue
            gen.bound(p, f["maxsteps"])
            for c in p["net"]:
                if c["phys"]:
                    p["actions"][c["action"]]["min"] = c["delay"] or 0
            if f["phys"]:
                for x in p["reactions"]:
                    for o in x["body"]:
                        if o[0] == 7 and p["actions"][o[3]]["phys"] and o[5] == 3:
                            o[5] = 0   # always with a value
                injectors(d, p, p["U"])
            if f["stop"] and d.chance(1, 3):
                stopper(d, p, p["U"])
            if rp.Ref(p, max_steps=600).run().trunc:
                continue
            break
        else:
            return None
        vt, net = rti.gen_net(d)
        return dict(p=p, vt=vt, net=net, sync="off", horizon=3600 * 10**9, variant="NP",
                    feds=[dict(at=d.weighted([(3, 0), (1, d.int(0, 10) * MS)]), workers=d.pick([1, 2, 3]),
                               physmin=min([a["min"] for a in p["actions"] if a["phys"] and p["reactors"][a["r"]]["env"] == k], default=-1)) for k in range(nf)])

    def run(self, case):
        if case is None:
            return pbt.Result(inconclusive="no federation")
        if not hasattr(self, "exe"):
            self.setup("quick")
        p = case["p"]
        log = execute(self.exe[case["variant"]], case)
        fail = log.failure()
        st = collections.Counter()
        st["federations of %d" % p["nf"]] += 1
        if fail and fail[0] in ("limit", "harness"):
            return pbt.Result(inconclusive=re.sub(r"[0-9]+", "N", fail[1])[:80])
        bad = fail[1] if fail else self.judge(case, log, st)
        return pbt.Result(bad=bad, nontrivial=self.nontrivial(case, log, st), stats=dict(st))

    def nontrivial(self, case, log, st):
        return st["messages"] >= 2

    def judge(self, case, log, st):
        p = case["p"]
        ex = []
        for f, r in enumerate(log.runs):
            e, err = rxcheck.executions(r)
            if err:
                return "federate %d: %s" % (f, err)
            if r.odd:
                return "federate %d: %s" % (f, r.odd[0])
            for x in e:
                if p["reactors"][p["reactions"][x.x]["r"]]["env"] != f:
                    return "federate %d executes reaction %d of another federate" % (f, x.x)
            ex += e
        st["executions"] += len(ex)
        st["messages"] += sum(1 for e in ex if p["reactions"][e.x].get("net") == 3)
        for c in p["net"]:
            st["zero-delay cycle connections" if c["zdc"] else "other connections"] += 1
        if len(log.end) != p["nf"]:
            return "end: only federates %s ended" % sorted(log.end)
        starts = {e[2] for e in log.end.values()}
        if len(starts) != 1:
            return "start: the federates have different start times: %s" % sorted(starts)
        full = (p["opts"]["timeout"], 0)
        reqs = sorted({s for r in log.runs for s in r.stops})
        ends = {f: e[:2] for f, e in log.end.items()}
        T = min(ends.values())
        ex = [e for e in ex if p["reactions"][e.x].get("net") != 2]
        early = [f for f in ends if ends[f] != T]
        ext = sorted(b for r in log.runs for b in r.extstops)
        if T > full:
            return "stop: the federation ends at %s, after the timeout %s" % (T, full)
        if T < full and not reqs and not ext:
            return "stop: federates end at %s, before the timeout, and nobody has requested a stop" % (T,)
        if early:
            # those that had already come to the timeout when the others agreed to stop
            if any(ends[f] != full for f in early) or not (reqs or ext):
                return "stop: the federates end at different tags: %s" % sorted(ends.items())
            st["federates that end before a stop is agreed"] += len(early)
        if T < full and not ext and not reqs[0] < T:
            return "stop: the federates end at %s although the first request to stop is at %s" % (T, reqs[0])
        late = sorted(s for f, r in enumerate(log.runs) for s in r.stops if f not in early)
        if late and late[-1] > T:
            return "stop: a reaction executes at %s, after the stop tag %s" % (late[-1], T)
        if reqs or ext:
            st["stops at an agreed tag" if T < full else "stops at the timeout in spite of a request"] += 1
        st["requests"] += len(reqs)
        exts, bad = physical(p, log.runs, ends, p["opts"]["fast"])
        if bad or exts is None:
            return bad
        st["events of physical actions"] += len(exts)
        more, bad = receipts(p, log.runs, ends, st)
        if bad:
            return bad
        ref = rp.Ref(p, ext=exts + more, max_steps=3000, stop_at=T, ownstop=False)
        ref.physnet = {}
        ref.run()
        if ref.trunc:
            return None
        if early:
            # the others end without those that went on, whose shutdown was at the timeout
            ex = [e for e in ex if e.tag < T]
            ref.out = [o for o in ref.out if (o[2], o[3]) < T]
        bad = rxcheck.compare(p, ex, ref) or delivered(case, ref, log.runs, ends, early)
        if bad and T < full:
            # A federate that has been granted a tag beyond the agreed stop tag does not wait for what its upstream
            # federates send at the stop tag, which nothing held back: known finding F12-stop-messages.
            X = p["reactions"]
            at = {kind: {X[e.x]["body"][0][3] for e in ex if e.tag == T and X[e.x].get("net") == kind} for kind in (1, 3)}
            lost = [n for n in sorted(at[1] - at[3]) if p["net"][n]["delay"] is None and not p["net"][n]["phys"]]
            if lost:
                ex = [e for e in ex if e.tag < T]
                ref.out = [o for o in ref.out if (o[2], o[3]) < T]
                before = rxcheck.compare(p, ex, ref)
                return before or STOPMSG + ": sent at %s over connections %s: %s" % (T, lost, bad)
        return bad

    def known(self, case, msg):
        return "F12-stop-messages" if msg.startswith(STOPMSG) else None

    def show(self, case):
        if case is None:
            return {}
        p = case["p"]
        return dict(federates=p["nf"], reactions=len(p["reactions"]), connections=[[c["src"], c["dst"], c["delay"], "physical" if c["phys"] else c["zdc"]] for c in p["net"]], options=p["opts"], net=case["net"])

    def explain(self, case):
        if not hasattr(self, "exe"):
            self.setup("quick")
        p = case["p"]
        for i, x in enumerate(p["reactions"]):
            print("reaction", i, "fed", p["reactors"][x["r"]]["env"], {k: v for k, v in x.items() if k not in ("mode", "deadline", "prio", "hand", "reset") and v not in (0, [])})
        for c in p["net"]:
            print("net", c)
        for k in ("opts", "actions", "timers", "outs", "ins"):
            print(k, p[k])
        print({k: v for k, v in case.items() if k != "p"})
        log = execute(self.exe[case["variant"]], case)
        for l in log.lines[-300:]:
            print("  ", l)
        print(log.code, log.failure())
        print(log.err[-3000:])
        if not log.failure():
            print(self.judge(case, log, collections.Counter()))


class DecCheck(FedCheck):
    """Decentralized coordination: every message goes directly to its destination, and federates wait for physical time."""

    def setup(self, tier):
        self.exe = {"NP": build.fed("NP", dec=True)}

    def gen(self, d, i):
        for _ in range(30):
            f = dict(reactors=7, reactions=14, outs=8, ins=9, actions=3, timers=3, width=3, stop=0, phys=0, ops=4, work=0, startup=1, shutdown=1,
                     tokens=1, policies=1, delays=0, maxsteps=300, scale=(MS, 100 * US, 10 * MS), fast=0)
            f.update(self.feats)
            f["phys"] = d.pick([0, 0, 60])
            f["work"] = d.pick([0, 0, 1])
            env, forced = None, ()
            if f["phys"] or d.chance(3, 4):
                p, nf, env, forced = federation(d, f, d.pick(f["scale"]))
            else:
                p = gen.program(d, f, finish=False)
                if p["opts"]["timeout"] < 0:
                    p["opts"]["timeout"] = 10 * p["U"]
                p["opts"]["keep"] = 1
                nf = d.int(2, 6)
            p["opts"]["fast"] = 0
            p["dec"] = 1
            if not split(d, p, nf, p["U"], env=env, forced=forced, nodelay=d.pick([2, 5, 1]), physical=d.pick([0, 2, 0, 4, 0])) or (not p["net"] and d.chance(7, 8)):
                continue
            gen.bound(p, f["maxsteps"])
            for c in p["net"]:
                if c["phys"]:
                    p["actions"][c["action"]]["min"] = c["delay"] or 0
            if f["phys"]:
                for x in p["reactions"]:
                    for o in x["body"]:
                        if o[0] == 7 and p["actions"][o[3]]["phys"] and o[5] == 3:
                            o[5] = 0   # always with a value
                injectors(d, p, p["U"])
            if rp.Ref(p, max_steps=600).run().trunc:
                continue
            break
        else:
            return None
        h = d.pick([1, 2, 4])
        for x in p["reactions"]:
            if not x.get("net"):
                x["stp"] = int(d.below(h) == 0)
        vt, net = rti.gen_net(d)
        vt[5] = 0
        net[2] = net[4] = 0   # a failed read is repeated after 100 ms
        for c in p["net"]:
            c["staa"] = d.weighted([(4, 0), (1, p["U"]), (1, d.below(5 * p["U"]))])
        sta = stas(p, net[3])
        safe = int(sta is not None and not f["work"] and d.chance(5, 6))
        if not safe:
            sta = [d.weighted([(2, 0), (1, d.below(5 * p["U"])), (1, net[3])]) for _ in range(nf)]
        elif d.chance(1, 4):
            sta = [s + d.below(3 * p["U"]) if i not in {c["src"] for c in p["net"]} else s for i, s in enumerate(sta)]
        return dict(p=p, vt=vt, net=net, sync="off", horizon=3600 * 10**9, variant="NP", safe=safe, busy=int(bool(f["work"])),
                    feds=[dict(at=d.weighted([(3, 0), (1, d.int(0, 10) * MS)]), workers=d.pick([1, 2, 3]), sta=sta[k]) for k in range(nf)])

    def judge(self, case, log, st):
        p = case["p"]
        ex = []
        for f, r in enumerate(log.runs):
            e, err = rxcheck.executions(r)
            if err:
                return "federate %d: %s" % (f, err)
            if r.odd:
                return "federate %d: %s" % (f, r.odd[0])
            for x in e:
                if p["reactors"][p["reactions"][x.x]["r"]]["env"] != f:
                    return "federate %d executes reaction %d of another federate" % (f, x.x)
            ex += e
        st["executions"] += len(ex)
        st["messages"] += sum(1 for e in ex if p["reactions"][e.x].get("net") == 3)
        st["with sufficient STA" if case["safe"] else "with any STA"] += 1
        if len(log.end) != p["nf"]:
            return "end: only federates %s ended" % sorted(log.end)
        starts = {e[2] for e in log.end.values()}
        if len(starts) != 1:
            return "start: the federates have different start times: %s" % sorted(starts)
        T = (p["opts"]["timeout"], 0)
        ends = {f: e[:2] for f, e in log.end.items()}
        if any(e != T for e in ends.values()):
            return "stop: the federates end at %s, the timeout is %s" % (sorted(ends.items()), T)
        exts, bad = physical(p, log.runs, ends, False)
        if bad or exts is None:
            return bad
        more, bad = self.received(case, log.runs, T, st)
        if bad:
            return bad
        ex = [e for e in ex if p["reactions"][e.x].get("net") != 2]
        ref = rp.Ref(p, ext=exts + more[0], max_steps=3000, stop_at=T, ownstop=False)
        ref.physnet, ref.tardy = {}, more[1]
        ref.run()
        if ref.trunc:
            return None
        bad = rxcheck.compare(p, ex, ref)
        if bad:
            return bad
        stp = sorted(z for r in log.runs for z in r.stp)
        if stp != sorted(ref.stp):
            x, t = min(set(stp) ^ ref.stp) if set(stp) != ref.stp else next(z for z in stp if stp.count(z) > 1)
            return "stp: the STP violation handler of reaction %d is %s at %s" % (x, "invoked" if (x, t) in stp else "not invoked", t)
        st["STP violation handlers"] += len(stp)
        for n, c in enumerate(p["net"]):
            got = [g for g in log.runs[c["dst"]].got if g[0] == n]
            sent = ref.physnet.get(n, [])
            for k, g in enumerate(sorted(got, key=lambda g: g[1])):
                if k >= len(sent) or list(g[3]) != list(sent[k][1]):
                    return "message: message %d received over connection %d, at %s, is not what was sent" % (k, n, g[1])
        return None

    def received(self, case, runs, T, st):
        p = case["p"]
        ext, tardy = [], set()
        slack = 10 * case["net"][3] + MS
        for n, c in enumerate(p["net"]):
            got = sorted((g for g in runs[c["dst"]].got if g[0] == n), key=lambda g: g[1])
            out = [s for s in runs[c["src"]].sent if s[0] == n]
            if c["phys"]:
                want = [(None, s) for s in out]
            else:
                want = []
                for s in out:
                    t = s[1:3] if c["delay"] is None else (s[1], s[2] + 1) if c["delay"] == 0 else (s[1] + c["delay"], 0)
                    if t <= T:
                        want.append((t, s))
            tagged = {q[1:3]: q[3:] for q in runs[c["dst"]].tagged if q[0] == n}
            if len(got) > len(want):
                return None, "message: %d messages were sent over connection %d, %d received" % (len(want), n, len(got))
            last = (-1, 0)   # the tag of the previous message
            for k, (_, t, phys, v, ln) in enumerate(got):
                if len(v) != ln:
                    return None, "message: a message over connection %d at %s has %d of %d elements" % (n, t, len(v), ln)
                i, s = want[k]
                if c["phys"]:
                    if t[0] < s[3] + (c["delay"] or 0):
                        return None, "message: message %d over physical connection %d was sent at %d and received at %s; the delay is %d" % (k, n, s[3], t, c["delay"] or 0)
                else:
                    q = tagged[t]
                    if t < i:
                        return None, "message: message %d over connection %d has tag %s and is received at %s" % (k, n, i, t)
                    if q[:2] != i:
                        return None, "message: message %d over connection %d was sent for tag %s; its intended tag is %s at tag %s" % (k, n, i, q[:2], t)
                    if t > i:
                        tardy.add((c["action"], t))
                    if case["safe"] and t > i > last:   # the messages of two microsteps may have the same tag
                        return None, "message: message %d over connection %d of tag %s is tardy, at tag %s, although the STA offset suffices" % (k, n, i, t)
                    st["tardy messages" if t > i else "messages on time"] += 1
                ext.append((t, c["action"], 1, rp.Val(v)))
                last = t
            for i, s in want[len(got):]:
                if last >= T:
                    st["messages deferred past the end"] += 1
                    continue
                if s[3] + (c["phys"] and c["delay"] or 0) + slack < T[0] and not case["busy"] or (case["safe"] and not c["phys"]):
                    return None, "message: the message sent over connection %d at %d for %s was never received" % (n, s[3], i)
                st["messages too late for the receiver"] += 1
        return (ext, tardy), None


def stas(p, lat):
    """STA offsets with which no message is tardy, or None."""
    eps = 200 * US
    into = {f: [c for c in p["net"] if c["dst"] == f and not c["phys"]] for f in range(p["nf"])}
    s = [0] * p["nf"]
    lag = lambda f: eps + (s[f] + max(c["staa"] for c in into[f]) + 60 * US if into[f] else 0)
    for _ in range(p["nf"] + 1):
        changed = 0
        for f in range(p["nf"]):
            for c in into[f]:
                need = lag(c["src"]) + lat + eps - (c["delay"] or 0)
                if need > s[f]:
                    s[f], changed = need, 1
        if not changed:
            return s
    return None
