"""Reactor programs: encoding for harness/rx, execution, trace parsing, and the reference interpreter.

A program is a dict:
 opts: timeout (ns or -1), keep, fast, workers
 envs: number of environments
 reactors: [{mode: enclosing mode or -1, env}]          modes: [{reactor}]
 actions: [{r, phys, min, spacing, policy, pt, mode}]    policy 0 defer, 1 drop, 2 replace; pt 0 void 1 array 2 object 3 int
 timers: [{r, offset, period, mode}]
 outs: [{r, pt, w}]   ins: [{r, pt, w, mut, sparse, src: [[out, ch] or None]}]
 wds: [{r, min, body}]
 reactions: [{r, level, mode, deadline, prio, last, startup, shutdown, reset, trig: [[kind,id]], read: [[kind,id]], eff: [out], body, hand}]
 resets: [[mode, reactor]]   inj: [[[t, kind, action, delay, v]]]
ops are [op, gm, ge, a0..a5].
"""
import os, subprocess, signal, select

FOREVER = (1 << 63) - 1
M64 = (1 << 64) - 1
K = 0x9E3779B97F4A7C15


def mix(h, v):
    h = ((h ^ (v & M64)) * K) & M64
    return h ^ (h >> 29)


def s64(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


def _ops(out, ops):
    out.append(len(ops))
    for o in ops:
        out.extend(o)
        out.extend([0] * (9 - len(o)))


def encode(p, cfg):
    """cfg: dict(seed, policy, sync, mem, pct, tick, spurious, workers)"""
    o = p["opts"]
    out = [cfg.get("seed", 1), cfg.get("policy", 0), cfg.get("sync", 3), cfg.get("mem", 0), cfg.get("pct", 3), cfg.get("tick", 0),
           cfg.get("spurious", 0), o.get("timeout", -1), int(o.get("keep", 0)), int(o.get("fast", 0)), cfg.get("workers", 0),
           p.get("envs", 1)]
    a = out.append
    e = out.extend
    a(len(p["reactors"]))
    for r in p["reactors"]:
        e([r.get("mode", -1), r.get("env", 0)])
    a(len(p["modes"]))
    for m in p["modes"]:
        a(m["reactor"])
    a(len(p["actions"]))
    for x in p["actions"]:
        e([x["r"], x["phys"], x["min"], x["spacing"], x["policy"], x["pt"], x.get("mode", -1)])
    a(len(p["timers"]))
    for x in p["timers"]:
        e([x["r"], x["offset"], x["period"], x.get("mode", -1)])
    a(len(p["outs"]))
    for x in p["outs"]:
        e([x["r"], x["pt"], x["w"]])
    a(len(p["ins"]))
    for x in p["ins"]:
        e([x["r"], x["pt"], x["w"], x.get("mut", 0), x.get("sparse", 0)])
        for s in x["src"]:
            e(s if s else [-1, 0])
    a(len(p["wds"]))
    for x in p["wds"]:
        e([x["r"], x["min"]])
        _ops(out, x["body"])
    a(len(p["reactions"]))
    for x in p["reactions"]:
        e([x["r"], x["level"], x.get("mode", -1), x["deadline"], x["prio"], x["last"], int(x["deadline"] >= 0),
           int(x["startup"]), int(x["shutdown"]), int(x.get("reset", 0))])
        a(len(x["trig"]))
        for t in x["trig"]:
            e(t)
        a(len(x["read"]))
        for t in x["read"]:
            e(t)
        a(len(x["eff"]))
        e(x["eff"])
        _ops(out, x["body"])
        _ops(out, x["hand"])
    a(len(p["resets"]))
    for x in p["resets"]:
        e(x)
    a(len(p["inj"]))
    for j in p["inj"]:
        a(len(j))
        for x in j:
            e(x)
    return " ".join(map(str, out))


class Server:
    """A process that runs programs, one child per program."""
    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def start(self):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:handle_segv=1", UBSAN_OPTIONS="print_stacktrace=0:exitcode=98")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, bufsize=0,
                                  start_new_session=True)
        self.buf = b""

    def run(self, text):
        if self.p is None or self.p.poll() is not None:
            self.start()
        data = text.encode()
        try:
            self.p.stdin.write(b"%-16d" % len(data) + data)
        except BrokenPipeError:
            self.start()
            self.p.stdin.write(b"%-16d" % len(data) + data)
        buf = bytearray()
        fd = self.p.stdout.fileno()
        import time
        end = time.time() + 150
        pos = -1
        while True:
            r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not r:
                self.close()
                return Run(["T"], -99, "no answer")
            k = os.read(fd, 1 << 16)
            if not k:
                self.close()
                return Run([], -98, "server ended")
            buf += k
            pos = buf.rfind(b"\n@@END ")
            if pos >= 0:
                nl = buf.find(b"\n", pos + 1)
                if nl >= 0:
                    _, code, el = buf[pos + 1:nl].split()
                    if len(buf) >= nl + 1 + int(el):
                        break
        err = bytes(buf[nl + 1:nl + 1 + int(el)]).decode(errors="replace")
        return Run(buf[:pos].decode(errors="replace").split("\n"), int(code), err)

    def close(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except Exception:
                pass
            self.p.wait()
            self.p = None


class Run:
    """A parsed trace."""
    def __init__(self, lines, code, err):
        self.code, self.err = code, err
        self.ev = []       # (kind, id, et, ms, phys, thread, seq) in order, with end records ('E', id, h, seq, kind)
        self.inj, self.phys, self.stops, self.wd, self.chk, self.odd, self.extstops = [], [], [], [], [], [], []
        self.stp = []       # executions of STP violation handlers
        self.tagged = []    # messages over logical connections in decentralized coordination: what the receiving reaction saw
        self.sent, self.got = [], []    # over connections between federates
        self.trace = []     # blocks of records of the trace
        self.fin = None
        self.mem = None
        self.died = None
        self.leaks = []
        self.ret = None
        for l in lines:
            if not l:
                continue
            k = l[0]
            f = l.split(" ")
            try:
                if k in "BDW":
                    self.ev.append((k,) + tuple(int(x) for x in f[1:]))
                elif k == "E":
                    self.ev.append(("E", int(f[1]), int(f[2]), int(f[3]), f[4]))
                elif k == "P":
                    self.phys.append(tuple(int(x) for x in f[1:]))
                elif k == "J":
                    self.inj.append(tuple(int(x) for x in f[1:]))
                elif k == "N":
                    self.sent.append(tuple(int(x) for x in f[1:]))
                elif k == "Z":
                    self.stp.append((int(f[1]), (int(f[2]), int(f[3]))))
                elif k == "Q":
                    self.tagged.append(tuple(int(x) for x in f[1:]))
                elif k == "V":
                    c, et, ms, ph, n = (int(x) for x in f[1:6])
                    if f[6:] and self.got and len(self.got[-1][3]) < self.got[-1][4] and self.got[-1][:3] == (c, (et, ms), ph):
                        self.got[-1][3].extend(int(x) for x in f[6:])
                    else:
                        self.got.append((c, (et, ms), ph, [int(x) for x in f[6:]], n))
                elif k == "t":
                    if len(f) == 2:
                        self.trace.append([])
                    else:
                        self.trace[-1].append(tuple(int(x) for x in f[1:]))
                elif k == "S":
                    self.stops.append((int(f[1]), int(f[2])))
                elif k == "q":
                    self.extstops.append((int(f[1]), int(f[2])))
                elif k in "wv":
                    self.wd.append((k, len(self.ev)) + tuple(int(x) for x in f[1:]))
                elif k == "C":
                    self.chk.append(tuple(int(x) for x in f[1:]))
                elif k == "F":
                    self.fin = [int(x) for x in f[1:]]
                elif k == "M":
                    self.mem = l[2:]
                elif k == "K":
                    self.died = (int(f[1]), " ".join(f[2:]))
                elif k == "L":
                    self.leaks.append(l)
                elif k == "X":
                    self.odd.append(l[2:])
                elif k == "R":
                    self.ret = int(f[1])
            except (ValueError, IndexError):
                pass

    def failure(self):
        """An abnormal end, as a message, or None. 'limit' is for limits of the harness."""
        if self.died:
            c, m = self.died
            if c in (47, 48):
                return ("hang: " if c == 47 else "limit: ") + m
            return ("limit: " if c == 44 else "deadlock: " if c == 42 else "livelock: " if c == 43 else "abnormal: ") + m
        if self.code == 46:
            return "limit: bad program: " + self.err[-300:]
        if self.code == -27:
            return "hang: 8 seconds of processor time without finishing"
        if self.code == -14:
            return "limit: wall clock"
        if self.code == -99 or self.code == -98:
            return "limit: server"
        if self.code == -9:
            return "limit: killed"
        if self.code == 99 or self.code == 98:
            return "sanitizer: " + "\n".join(x for x in self.err.split("\n") if "ERROR" in x or "runtime error" in x or x.strip().startswith("#"))[:1500]
        if self.code < 0:
            return "crash: signal %d %s" % (-self.code, self.err[-600:])
        if self.code != 0:
            return "abnormal: exit code %d: %s" % (self.code, self.err[-600:])
        if not self.fin:
            return "abnormal: no end of trace: " + self.err[-600:]
        return None


class Val:
    """A message payload: kind as in the program (1 array, 2 object, 3 int)."""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


def arr(v, n):
    return Val([s64(v + i * 5) for i in range(n)])


def obj(v):
    return Val([s64(v + i * 3) for i in range(v % 16)])


def obj_u(v):
    return Val([s64(v + i * 3) for i in range((v % (1 << 64)) % 16)])


def hash_val(h, pt, val):
    if pt == 3:
        return mix(h, val.d[0])
    h = mix(h, len(val.d))
    for x in val.d:
        h = mix(h, x)
    return h


class Ref:
    """Reference semantics of reactor programs, executed sequentially, in exact logical time.

    Physical inputs (events of physical actions, deadline misses) are inputs of the interpretation:
    ext: [(tag, action, has_value, Val or None)], late: {(reaction, tag)}.
    """
    def __init__(self, p, ext=(), late=(), stop_at=None, max_steps=4000, ownstop=True):
        self.ownstop = ownstop
        self.tardy = ()          # (action, tag) of messages that arrive later than intended
        self.stp = set()         # (reaction, tag) where the STP violation handler executes
        self.physnet = None      # messages sent over physical connections, if they are not to be delivered like others
        self.p = p
        self.max = max_steps
        self.ext = sorted(ext, key=lambda e: e[0])
        self.late_all = late == "all"
        self.late = set() if self.late_all else set(late)
        self.stop = (FOREVER, 1 << 40)
        self.maybe_pending = []
        t = p["opts"].get("timeout", -1)
        if t >= 0:
            self.stop = (t, 0)
        if stop_at is not None and stop_at < self.stop:
            self.stop = stop_at
        self.out = []        # (kind, reaction, time, microstep, hash)
        self.state = [7 + i for i in range(len(p["reactors"]))]
        self.pending = {}    # tag -> {trigger key: value}
        self.events = []     # (trigger, current tag, tag) of the events put on the event queue
        self.last = {}       # action -> tag of the last scheduled event
        self.trunc = False
        self.stats = {"sched": 0, "conflict": 0, "drop": 0, "replace": 0, "defer": 0, "afterstop": 0, "stopreq": 0, "copies": 0, "fwd": 0, "modech": 0}
        X = p["reactions"]
        self.by_action, self.by_timer, self.by_in = {}, {}, {}
        for i, x in enumerate(X):
            for k, d in x["trig"]:
                (self.by_in, self.by_action, self.by_timer)[k].setdefault(d, []).append(i)
        self.consumers = {}
        for i, x in enumerate(p["ins"]):
            for c, s in enumerate(x["src"]):
                if s:
                    self.consumers.setdefault((s[0], s[1]), []).append(i)
        self.order = {i: (x["level"], i) for i, x in enumerate(X)}
        self.now = set()     # reactions of this tag triggered by a message from another federate
        self.modal = bool(p["modes"])
        if self.modal:
            self.init_modes()

    # --- modes
    def init_modes(self):
        p = self.p
        self.rmodes = {}
        for i, m in enumerate(p["modes"]):
            self.rmodes.setdefault(m["reactor"], []).append(i)
        self.cur = {r: ms[0] for r, ms in self.rmodes.items()}
        self.next = {}
        self.started, self.needs_reset = set(), set()
        self.suspended = []   # [trigger key, remaining time, value, order]
        self.sus_n = 0

    def enclosing(self, reactor, own):  # innermost mode of an element of a reactor
        return own if own >= 0 else self.p["reactors"][reactor].get("mode", -1)

    def mode_of(self, key):
        k, i = key
        x = self.p["actions"][i] if k == "a" else self.p["timers"][i]
        return self.enclosing(x["r"], x.get("mode", -1))

    def active(self, m):
        while m >= 0:
            r = self.p["modes"][m]["reactor"]
            if self.cur[r] != m:
                return False
            m = self.p["reactors"][r].get("mode", -1)
        return True

    def inside(self, m, anc):  # m is anc or nested in it
        while m >= 0:
            if m == anc:
                return True
            m = self.p["reactors"][self.p["modes"][m]["reactor"]].get("mode", -1)
        return False

    def process_modes(self, now):
        p = self.p
        req = {r: v for r, v in self.next.items()}
        self.next = {}
        if not req:
            return
        # hierarchical reset: a reactor inside a mode entered with reset returns to its initial mode
        resets, hist = set(), set()
        for r in sorted(self.rmodes):   # reactors are listed outside in
            par = p["reactors"][r].get("mode", -1)
            if par >= 0 and par in resets:
                req[r] = (self.rmodes[r][0], 1)
            if r in req:
                m, kind = req[r]
                (resets if kind == 1 else hist).add(m)
        was_active = {m: self.active(m) for m in range(len(p["modes"]))}
        before = dict(self.cur)
        for r, (m, kind) in req.items():
            self.cur[r] = m
            self.stats["modech"] += 1
        t, ms = now
        # suspend what became inactive, or is to be reset
        newpend = {}
        for tag in sorted(self.pending):
            for key, val in self.pending[tag].items():
                m = self.mode_of(key)
                if m >= 0 and (not self.active(m)):
                    self.suspended.append([key, tag[0] - t, val, self.sus_n, False])
                    self.sus_n += 1
                elif m >= 0 and m in resets:
                    self.suspended.append([key, tag[0] - t, val, self.sus_n, True])
                    self.sus_n += 1
                else:
                    newpend.setdefault(tag, {})[key] = val
        self.pending = newpend
        # entered with reset: timers restart, events are discarded, state is restored
        for m in sorted(resets):
            self.suspended = [s for s in self.suspended if self.mode_of(s[0]) != m]
            for i, tm in enumerate(p["timers"]):
                if self.mode_of(("t", i)) == m:
                    if self.active(m):
                        tag = (t + tm["offset"], 0) if tm["offset"] > 0 else (t, ms + 1)
                        self.insert(tag, ("t", i), None)
                    else:
                        self.suspended.append([("t", i), tm["offset"], None, self.sus_n, False])
                        self.sus_n += 1
            for mm, r in p["resets"]:
                if mm == m:
                    self.state[r] = 7 + r
            self.needs_reset.add(m)
        # whatever is active again resumes with the time that remained
        keep = []
        for s in sorted(self.suspended, key=lambda s: s[3]):
            if self.active(self.mode_of(s[0])):
                rem = s[1]
                tag = (t + rem, 0) if rem > 0 else (t, ms + 1)
                while s[0] in self.pending.get(tag, {}):
                    tag = (tag[0], tag[1] + 1)
                self.insert(tag, s[0], s[2])
            else:
                keep.append(s)
        self.suspended = keep
        # startup and reset reactions of modes need the next microstep
        if any(self.active(m) and (m not in self.started or m in self.needs_reset) for m in range(len(p["modes"]))):
            self.mode_tag = (t, ms + 1)

    # --- events
    def insert(self, tag, key, val, now=(0, 0)):
        if tag <= self.stop:
            self.events.append((key, now, tag))
            self.pending.setdefault(tag, {})[key] = val

    def schedule(self, now, ai, extra, val):
        a = self.p["actions"][ai]
        st = self.stats
        if a["phys"] and not a.get("net"):
            return
        st["sched"] += 1
        if now > self.stop:
            return
        d = a["min"] + max(0, extra)
        tag = (now[0] + d, 0) if d > 0 else (now[0], now[1] + 1)
        key = ("a", ai)
        if a["spacing"] > 0:
            l = self.last.get(ai)
            if l is not None and tag[0] < l[0] + a["spacing"]:
                if a["policy"] == 1:
                    st["drop"] += 1
                    return
                if a["policy"] == 2 and key in self.pending.get(l, {}):
                    self.pending[l][key] = val
                    st["replace"] += 1
                    return
                tag = (l[0] + a["spacing"], 0)
                st["defer"] += 1
        else:
            while key in self.pending.get(tag, {}):
                tag = (tag[0], tag[1] + 1)
                st["conflict"] += 1
        if tag > self.stop:
            st["afterstop"] += 1
            if self.stop == (now[0], now[1] + 1):
                self.maybe_pending.append(val)   # pending if it was scheduled before the stop was requested at this tag
            return
        self.last[ai] = tag
        self.insert(tag, key, val, now)

    # --- execution
    def run(self):
        p = self.p
        X = p["reactions"]
        now = (0, 0)
        ready = set()
        present_actions = {}
        self.mode_tag = None
        for i, x in enumerate(X):
            if x["startup"] and self.rmode(i) < 0:
                ready.add(i)
        if self.modal:
            self.mode_specials(ready)
        for i, t in enumerate(p["timers"]):
            m = self.mode_of(("t", i)) if self.modal else -1
            if m >= 0 and not self.active(m):
                self.suspended.append([("t", i), t["offset"], None, self.sus_n, False])
                self.sus_n += 1
                continue
            if t["offset"] == 0:
                for r in self.by_timer.get(i, []):
                    if self.can_run(r):
                        ready.add(r)
                if t["period"] > 0:
                    self.insert((t["period"], 0), ("t", i), None)
            else:
                self.insert((t["offset"], 0), ("t", i), None)
        exti = 0
        while exti < len(self.ext) and self.ext[exti][0] <= now:   # messages for the first tag
            _, i, hv, val = self.ext[exti]
            exti += 1
            present_actions[i] = val
            ready.update(self.by_action.get(i, []))
        steps = 0
        while True:
            if now >= self.stop:
                for i, x in enumerate(X):
                    if x["shutdown"]:
                        m = self.rmode(i)
                        if m < 0 or m in self.started:
                            ready.add(i)
                            self.force = getattr(self, "force", set())
                            self.force.add(i)
            self.step(now, ready, present_actions)
            steps += 1
            if len(self.out) > self.max or steps > self.max:
                self.trunc = True
                return self
            if self.modal:
                self.process_modes(now)
            if now >= self.stop:
                break
            # next tag
            tags = [t for t in self.pending if self.pending[t]]
            if exti < len(self.ext):
                tags.append(self.ext[exti][0])
            if self.mode_tag is not None:
                tags.append(self.mode_tag)
            if not tags:
                if not p["opts"].get("keep"):
                    self.stop = min(self.stop, (now[0], now[1] + 1))
                nxt = self.stop
            else:
                nxt = min(min(tags), self.stop)
            if nxt[0] >= FOREVER - (1 << 61):
                self.trunc = True
                return self
            now = nxt
            ready = set()
            present_actions = {}
            if self.modal and self.mode_tag == now:
                self.mode_specials(ready)
            self.mode_tag = None
            for key, val in self.pending.pop(now, {}).items():
                k, i = key
                if k == "a":
                    present_actions[i] = val
                    for r in self.by_action.get(i, []):
                        if self.can_run(r):
                            ready.add(r)
                else:
                    for r in self.by_timer.get(i, []):
                        if self.can_run(r):
                            ready.add(r)
                    if p["timers"][i]["period"] > 0:
                        self.insert((now[0] + p["timers"][i]["period"], 0), key, None, now)
            while exti < len(self.ext) and self.ext[exti][0] <= now:
                _, i, hv, val = self.ext[exti]
                exti += 1
                present_actions[i] = val
                for r in self.by_action.get(i, []):
                    if self.can_run(r):
                        ready.add(r)
        return self

    def rmode(self, i):
        x = self.p["reactions"][i]
        return x.get("mode", -1) if x.get("mode", -1) >= 0 else self.p["reactors"][x["r"]].get("mode", -1)

    def can_run(self, i):
        return not self.modal or self.active(self.rmode(i))

    def mode_specials(self, ready):
        X = self.p["reactions"]
        act = {m for m in range(len(self.p["modes"])) if self.active(m)}
        for i, x in enumerate(X):
            m = self.rmode(i)
            if m in act:
                if x["startup"] and m not in self.started:
                    ready.add(i)
                if x.get("reset") and m in self.needs_reset:
                    ready.add(i)
        self.started |= act
        self.needs_reset -= act

    def step(self, now, ready, acts):
        X = self.p["reactions"]
        ports = {}
        force = getattr(self, "force", ())
        ready = set(ready)
        done = set()
        viol = {r for a in acts if (a, now) in self.tardy for r in self.by_action.get(a, ())} if self.tardy else set()
        while ready:
            i = min(ready, key=self.order.__getitem__)
            ready.discard(i)
            done.add(i)
            if X[i].get("net") == 2:
                continue         # reports that an output is absent
            kind = "B"
            if X[i]["deadline"] >= 0 and (self.late_all or (i, now) in self.late):
                kind = "D"
            wrote = self.react(i, kind, now, ports, acts)
            ready |= self.now
            self.now = set()
            bad = i in viol
            if bad and X[i].get("stp"):
                self.stp.add((i, now))
                bad = False
            for o in wrote:
                if o[0] not in X[i]["eff"]:
                    continue
                for ii in self.consumers.get(o, ()):
                    for r in self.by_in.get(ii, ()):
                        if r not in done and self.can_run(r):
                            ready.add(r)
                            if bad:
                                viol.add(r)

    def react(self, i, kind, now, ports, acts):
        p = self.p
        x = p["reactions"][i]
        h = mix(i * 2 + (kind == "D"), 0x51ed27)
        h = mix(mix(h, now[0]), now[1])
        copies = {}

        def inval(ri, c):  # what the reaction sees on channel c of its ri-th read: a private copy if the input is mutable
            inp = p["ins"][x["read"][ri][1]]
            if (ri, c) in copies:
                return copies[(ri, c)]
            s = inp["src"][c]
            v = ports.get((s[0], s[1])) if s else None
            if v is not None and inp.get("mut") and inp["pt"]:
                v = Val(list(v.d))
                self.stats["copies"] += 1
            copies[(ri, c)] = v
            return v

        def hport(h, pt, v):
            if v is None:
                return mix(h, 2)
            h = mix(h, 1)
            return mix(h, v) if pt == 0 else hash_val(h, pt, v)

        for ri, (k, d) in enumerate(x["read"]):
            if k == 1:
                a = p["actions"][d]
                h = mix(h, 100 + ri)
                if d not in acts:
                    h = mix(h, 2)
                else:
                    h = mix(h, 1)
                    if a["pt"]:
                        h = mix(h, 78) if acts[d] is None else hash_val(h, a["pt"], acts[d])
            else:
                inp = p["ins"][d]
                h = mix(h, 200 + ri)
                for c in range(inp["w"]):
                    v = inval(ri, c)
                    if k == 2:
                        if v is not None:
                            h = mix(h, 300 + c)
                            h = hport(h, inp["pt"], v)
                    else:
                        h = hport(h, inp["pt"], v)
        r = x["r"]
        h = mix(h, self.state[r])
        wrote = {}
        for kk, o in enumerate(x["body"] if kind == "B" else x["hand"]):
            op, gm, ge = o[0], o[1], o[2]
            if (h >> 8) % gm != ge:
                continue
            a = o[3:]
            sv = s64(mix(h, 1000 + kk) >> 3)
            if op == 1:
                pt = p["outs"][a[0]]["pt"]
                ports[(a[0], a[1])] = sv if pt == 0 else arr(sv, 1) if pt == 1 else obj(sv)
                wrote[(a[0], a[1])] = 1
            elif op == 2:
                ports[(a[0], a[1])] = arr(sv, a[2])
                wrote[(a[0], a[1])] = 1
            elif op == 3:
                v = inval(a[2], a[3])
                if v is not None:
                    ports[(a[0], a[1])] = v
                    wrote[(a[0], a[1])] = 1
                    h = mix(h, 31)
                    self.stats["fwd"] += 1
            elif op == 4:
                if acts.get(a[2]) is not None:
                    ports[(a[0], a[1])] = acts[a[2]]
                    wrote[(a[0], a[1])] = 1
                    h = mix(h, 32)
                    self.stats["fwd"] += 1
            elif op == 5 or op == 16:
                inp = p["ins"][x["read"][a[0]][1]]
                v = inval(a[0], a[1])
                if v is not None:
                    if op == 16:
                        v = Val(list(v.d))
                        self.stats["copies"] += 1
                    v.d = [s64((e ^ sv)) for e in v.d]
                    h = hash_val(h, inp["pt"], v)
            elif op == 6:
                v = obj(sv) if p["outs"][a[0]]["pt"] == 2 else arr(sv, a[4])
                ports[(a[0], a[1])] = ports[(a[2], a[3])] = v
                wrote[(a[0], a[1])] = wrote[(a[2], a[3])] = 1
            elif op == 7:
                self.schedule(now, a[0], a[1], self.payload(a[0], a[2], sv))
            elif op == 8:
                v = inval(a[2], a[3])
                if v is not None:
                    self.schedule(now, a[0], a[1], v)
                    h = mix(h, 33)
                    self.stats["fwd"] += 1
            elif op == 9:
                if acts.get(a[2]) is not None:
                    self.schedule(now, a[0], a[1], acts[a[2]])
                    h = mix(h, 34)
                    self.stats["fwd"] += 1
            elif op == 10:
                if self.ownstop:
                    self.stop = min(self.stop, (now[0], now[1] + 1))
                self.stats["stopreq"] += 1
            elif op == 30:       # a message over a connection between federates
                c = p["net"][a[0]]
                v = inval(0, 0)
                if v is not None:
                    v = Val(list(v.d)) if isinstance(v, Val) else arr(v, 1)
                    if (c["phys"] or p.get("dec")) and self.physnet is not None:
                        self.physnet.setdefault(a[0], []).append((now, v.d))
                    elif c["delay"] is None and not c["phys"]:
                        acts[c["action"]] = v
                        self.now.update(self.by_action.get(c["action"], []))
                    else:
                        self.schedule(now, c["action"], c["delay"] or 0, v)
            elif op == 32:
                v = acts.get(p["net"][a[0]]["action"])
                if v is not None:
                    o = a[1]
                    ports[(o, 0)] = v.d[0] if p["outs"][o]["pt"] == 0 else v
                    wrote[(o, 0)] = 1
            elif op == 12 and self.modal:
                self.next[p["modes"][a[0]]["reactor"]] = (a[0], a[1])
        self.state[r] = s64(mix(self.state[r], h))
        self.out.append((kind, i, now[0], now[1], h))
        return wrote

    def payload(self, ai, kind, v):
        pt = self.p["actions"][ai]["pt"]
        if pt == 0 or kind == 3:
            return None
        if pt == 3:
            v &= 0xffffffff
            return Val([v - (1 << 32) if v >> 31 else v])
        if pt == 2:
            return obj(v)
        return arr(v, 17 + (v & M64) % 5)


def levels(p):
    """Sets level, prio (inferred deadline) and last (single dominating reaction). False if the reaction graph is cyclic."""
    X = p["reactions"]
    n = len(X)
    succ = [set() for _ in range(n)]
    pred = [set() for _ in range(n)]

    def edge(a, b):
        succ[a].add(b)
        pred[b].add(a)
    per = {}
    for i, x in enumerate(X):
        if per.get(x["r"]) is not None:
            edge(per[x["r"]], i)
        per[x["r"]] = i
    writers = {}
    for i, x in enumerate(X):
        for o in x["eff"]:
            writers.setdefault(o, []).append(i)
    readers = {}
    for i, x in enumerate(X):
        for k, d in list(x["trig"]) + [[0 if kk == 2 else kk, dd] for kk, dd in x["read"]]:
            if k == 0:
                readers.setdefault(d, set()).add(i)
    for ii, inp in enumerate(p["ins"]):
        for s in inp["src"]:
            if s:
                for w in writers.get(s[0], ()):
                    for r in readers.get(ii, ()):
                        if w == r:
                            return False
                        edge(w, r)
    for a, b in p.get("edges", ()):
        edge(a, b)
    indeg = [len(pred[i]) for i in range(n)]
    order = [i for i in range(n) if not indeg[i]]
    lev = [0] * n
    for i in order:
        for j in succ[i]:
            lev[j] = max(lev[j], lev[i] + 1)
            indeg[j] -= 1
            if not indeg[j]:
                order.append(j)
    if len(order) < n:
        return False
    prio = [X[i]["deadline"] if X[i]["deadline"] >= 0 else FOREVER for i in range(n)]
    for i in reversed(order):
        for j in succ[i]:
            prio[i] = min(prio[i], prio[j])
    for i, x in enumerate(X):
        x["level"] = lev[i]
        x["prio"] = prio[i]
        x["last"] = next(iter(pred[i])) if len(pred[i]) == 1 and not x.get("net") else -1
    p["_succ"] = [sorted(s) for s in succ]
    return True


def reach(p):
    """Transitive successors of each reaction, as bit masks."""
    n = len(p["reactions"])
    succ = p["_succ"]
    order = sorted(range(n), key=lambda i: -p["reactions"][i]["level"])
    m = [0] * n
    for i in order:
        for j in succ[i]:
            m[i] |= m[j] | (1 << j)
    return m
