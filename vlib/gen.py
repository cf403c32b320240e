"""Generators of reactor programs and of configurations."""
from vlib import rp

DEF = dict(reactors=5, reactions=10, outs=5, ins=5, actions=3, timers=2, width=4, wide=0, tokens=1, deadlines=0, stop=1, phys=0, ops=4,
           work=0, policies=1, fast=30, scale=(1000, 1, 20000, 1000000), deadline_far=0, startup=1, shutdown=1, maxsteps=600,
           mutable=1, sparse=0, iterate=1, inject=0, wd=0, keep=20, modes=0, chk=0, void_only=0, resets=1, block=0, extstop=0, delays=0, pt_heavy=0, min_actions=0, dense=0)


def dense(d, f):
    """Layers of reactors that run at the same time and all feed the next layer: many concurrent triggerings of the same reactions."""
    U = d.pick(f["scale"])
    p = dict(opts={}, envs=1, reactors=[], modes=[], actions=[], timers=[], outs=[], ins=[], wds=[], reactions=[], resets=[], inj=[], U=U)
    X = p["reactions"]
    prev = []
    period = d.pick([1, 2]) * U
    PT = [0] if not f["tokens"] else [0, 1, 2, 1, 2] if f["pt_heavy"] else [0, 0, 1, 2]
    nread, own = {}, []
    for layer in range(d.int(2, 4)):
        here = []
        for _ in range(d.int(1, 6) if layer else d.int(2, 7)):
            r = len(p["reactors"])
            p["reactors"].append({})
            x = dict(r=r, deadline=-1, startup=0, shutdown=0, reset=0, trig=[], read=[], eff=[], body=[], hand=[], mode=-1, last=-1, level=0, prio=0)
            if f["deadlines"] and d.chance(f["deadlines"], 100):
                x["deadline"] = d.pick([1, 0, 2, 5]) * U
            X.append(x)
            if not prev:
                p["timers"].append(dict(r=r, offset=0, period=period, mode=-1))
                x["trig"].append([2, len(p["timers"]) - 1])
            for _ in range(d.int(1, 3) if prev else 0):
                o = d.pick(prev)
                pt = p["outs"][o]["pt"]
                cand = [(q, c) for q in prev if p["outs"][q]["pt"] == pt for c in range(p["outs"][q]["w"])]
                w = d.pick([1, 2, 3, 4, 1])
                ii = len(p["ins"])
                p["ins"].append(dict(r=r, pt=pt, w=w, mut=int(bool(f["mutable"] and pt and d.chance(1, 3))), sparse=0, src=[list(d.pick(cand)) for _ in range(w)]))
                x["trig"].append([0, ii])
                x["read"].append([2 if f["iterate"] and d.chance(1, 3) else 0, ii])
                nread[ii] = 1
            p["outs"].append(dict(r=r, pt=d.pick(PT), w=d.int(1, 3)))
            x["eff"].append(len(p["outs"]) - 1)
            here.append(len(p["outs"]) - 1)
            if d.chance(1, 6):      # a second reaction, which also waits for the first
                y = dict(x, trig=[list(t) for t in x["trig"][:1]], read=[], eff=[], body=[], hand=[], deadline=-1)
                if y["trig"][0][0] == 0:
                    y["trig"] = []
                    y["startup"] = 1
                X.append(y)
        prev = here
    for i, x in enumerate(X):
        for which in ("body", "hand") if x["deadline"] >= 0 else ("body",):
            sets = [[1] + ([1, 0] if d.chance(3, 4) else [2, d.below(2)]) + [o, c] for o in x["eff"] for c in range(p["outs"][o]["w"])]
            more = body(d, p, i, dict(f, work=f["work"], stop=0), U, nread) if d.chance(1, 3) else []
            first = [o for o in more if o[0] == 5]
            late = [o for o in more if o[0] == 16]
            x[which] = first + sets + [o for o in more if o[0] not in (5, 16)] + late
    rp.levels(p)
    p["opts"] = dict(timeout=d.pick([30, 10, 3]) * period, keep=int(d.chance(1, 4)), fast=int(d.chance(1, 2)))
    bound(p, f["maxsteps"])
    return p


def program(d, feats=None, finish=True):
    f = dict(DEF)
    f.update(feats or {})
    if f["dense"] and d.chance(f["dense"], 100):
        return dense(d, f)
    U = d.pick(f["scale"])
    nR = d.int(1, f["reactors"])
    nX = d.int(1, f["reactions"])
    p = dict(opts={}, envs=1, reactors=[{} for _ in range(nR)], modes=[], actions=[], timers=[], outs=[], ins=[], wds=[], reactions=[],
             resets=[], inj=[])
    X = p["reactions"]
    for i in range(nX):
        X.append(dict(r=d.below(nR), deadline=-1, startup=0, shutdown=0, reset=0, trig=[], read=[], eff=[], body=[], hand=[], mode=-1, last=-1, level=0, prio=0))
    per = {r: [i for i in range(nX) if X[i]["r"] == r] for r in range(nR)}
    live = [r for r in range(nR) if per[r]]
    PT = [0, 1, 2] if f["tokens"] else [0]
    # actions and timers
    for _ in range(d.size(f["min_actions"], f["actions"])):
        a = dict(r=d.pick(live), phys=int(f["phys"] and (len(p["actions"]) < f["min_actions"] or d.chance(f["phys"], 100))), min=d.pick([0, 1, 2, 3, 10]) * U,
                 spacing=0, policy=0, pt=d.pick([0, 1, 2, 3] if f["tokens"] else [0, 3]), mode=-1)
        if f["void_only"]:
            a["pt"] = 0
        if f["policies"] and d.chance(1, 2):
            a["spacing"] = d.pick([0, 1, 2, 5, 20]) * U
            a["policy"] = d.below(3)
        p["actions"].append(a)
    for _ in range(d.size(0, f["timers"])):
        p["timers"].append(dict(r=d.pick(live), offset=d.pick([0, 1, 2, 5, 7]) * U, period=d.pick([0, 1, 2, 3, 5, 10]) * U, mode=-1))
    # outputs, written by reactions of their reactor
    writers = []
    for _ in range(d.size(0, f["outs"])):
        r = d.pick(live)
        w = 1
        if d.chance(1, 3):
            w = d.int(1, f["width"])
        o = dict(r=r, pt=d.weighted([(2 if not f["pt_heavy"] else 1, 0)] + ([(2, 1), (2, 2)] if f["tokens"] else [])), w=w)
        ws = {d.pick(per[r])}
        if d.chance(1, 4):
            ws.add(d.pick(per[r]))
        oi = len(p["outs"])
        p["outs"].append(o)
        writers.append(ws)
        for x in sorted(ws):
            X[x]["eff"].append(oi)
    # inputs: a reader comes after every writer in the global order of reactions, so the graph is acyclic
    for _ in range(d.size(0, f["ins"]) if p["outs"] else 0):
        x = d.below(nX)
        r = X[x]["r"]
        pt = p["outs"][d.below(len(p["outs"]))]["pt"]
        cand = [(o, c) for o in range(len(p["outs"])) if p["outs"][o]["pt"] == pt and max(writers[o]) < x and not p["outs"][o].get("ded") for c in range(p["outs"][o]["w"])]
        if not cand:
            continue
        w = 1
        if d.chance(1, 3):
            w = d.int(1, f["width"])
        sparse = 0
        if f["wide"] and d.chance(f["wide"], 100):
            w = d.int(10, 40)
            sparse = d.int(1, max(1, w // 10))
        if sparse:
            # every channel comes from its own channel of an output made for the purpose
            wx = [i for i in range(x) if X[i]["r"] in live]
            if not wx:
                continue
            src = []
            for c in range(w):
                if c and d.chance(1, 2):
                    src.append([len(p["outs"]) - 1, None])
                else:
                    wi = d.pick(wx)
                    p["outs"].append(dict(r=X[wi]["r"], pt=pt, w=0, ded=1))
                    writers.append({wi})
                    X[wi]["eff"].append(len(p["outs"]) - 1)
                    src.append([len(p["outs"]) - 1, None])
                o = src[-1][0]
                src[-1][1] = p["outs"][o]["w"]
                p["outs"][o]["w"] += 1
        else:
            src = [list(d.pick(cand)) if not d.chance(1, 8) else None for _ in range(w)]
        ii = len(p["ins"])
        p["ins"].append(dict(r=r, pt=pt, w=w, mut=0, sparse=sparse, src=src))
        readers = {x}
        if d.chance(1, 4):
            readers |= {y for y in per[r] if y >= x and d.chance(1, 2)}
        if f["mutable"] and pt and len(readers) == 1 and not sparse and d.chance(1, 2):
            p["ins"][-1]["mut"] = 1
        for y in sorted(readers):
            if y == x or d.chance(2, 3):
                X[y]["trig"].append([0, ii])
            k = 2 if f["iterate"] and d.chance(1 if not sparse else 2, 3) else 0
            X[y]["read"].append([k, ii])
    nread = {}
    for x in X:
        for k, i in x["read"]:
            nread[i] = nread.get(i, 0) + 1
    for i, a in enumerate(p["actions"]):
        for x in per[a["r"]]:
            t = d.chance(2, 3)
            if t:
                X[x]["trig"].append([1, i])
            if t or d.chance(1, 4):
                X[x]["read"].append([1, i])
    for i, t in enumerate(p["timers"]):
        for x in per[t["r"]]:
            if d.chance(2, 3):
                X[x]["trig"].append([2, i])
    for i, x in enumerate(X):
        if f["startup"] and (i == 0 or d.chance(1, 4) or (not x["trig"] and d.chance(1, 2))):
            x["startup"] = 1
        if f["shutdown"] and d.chance(1, 6):
            x["shutdown"] = 1
        if f["deadlines"] and d.chance(f["deadlines"], 100):
            x["deadline"] = d.pick([1, 0, 2, 5, 20]) * U if not f["deadline_far"] or d.chance(4, 5) else d.pick([rp.FOREVER, 1 << 62, (1 << 48) - 1, 1 << 48])
        for which in ("body", "hand") if x["deadline"] >= 0 else ("body",):
            x[which] = body(d, p, i, f, U, nread)
    if f["modes"]:
        assign_modes(d, p, f, U, per)
    if f["wd"]:
        gen_wd(d, p, f, U, live)
    rp.levels(p)
    o = p["opts"]
    o["timeout"] = d.pick([30, 10, 100, 3, 1, 0, 7]) * U
    if d.chance(1, 10) and not f["inject"] and not f["delays"]:
        o["timeout"] = -1
    o["keep"] = int(o["timeout"] >= 0 and d.chance(f["keep"], 100))
    o["fast"] = int(d.chance(f["fast"], 100))
    p["U"] = U
    if f["inject"]:
        gen_inject(d, p, f, U)
    if f["extstop"] and d.chance(f["extstop"], 100):
        for _ in range(d.int(1, 2)):
            t = d.pick([3, 0, 1, 2, 5, 10, 30]) * U + d.pick([0, 0, 1, -1])
            ev = [[max(0, t), 10, 0, 0, 0]]
            if d.chance(1, 4):
                ev.append([max(0, t) + d.pick([0, 1, 2]) * U, 10, 0, 0, 0])
            p["inj"].append(ev)
    if finish:
        bound(p, f["maxsteps"])
    return p


def bound(p, maxsteps):
    """Cuts the program's time so that its reference execution is not too long."""
    for _ in range(12):
        r = rp.Ref(p, max_steps=maxsteps).run()
        if not r.trunc and any(x["deadline"] >= 0 for x in p["reactions"]):
            q = rp.Ref(p, max_steps=maxsteps, late="all").run()
            if q.trunc:
                r = q
        if not r.trunc:
            p["_ref"] = None
            return r
        last = r.out[-1][2] if r.out else 0
        t = p["opts"]["timeout"]
        if last <= 0 or (t >= 0 and last // 2 >= t):
            # endless microsteps: remove self-feeding zero delays by giving every action a delay
            spread(p)
            p["opts"]["timeout"] = min(t, 20 * p["U"]) if t >= 0 else 20 * p["U"]
            if last <= 0 and all(a["min"] > 0 for i, a in enumerate(p["actions"]) if i not in netactions(p)) and p["opts"]["timeout"] == t:
                p["opts"]["timeout"] = 0
            continue
        p["opts"]["timeout"] = last // 2
    p["opts"]["timeout"] = 0
    spread(p)
    return None


def netactions(p):
    return {c["action"] for c in p.get("net", ())}


def spread(p):
    net = netactions(p)
    for i, a in enumerate(p["actions"]):
        if i not in net:
            a["min"] = max(a["min"], p["U"])
    for c in p.get("net", ()):
        if c["delay"] == 0 or (c["phys"] and c["delay"] is None):
            c["delay"] = p["U"]


def guard(d):
    gm = d.pick([1, 1, 2, 3, 4])
    return [gm, d.below(gm)]


def body(d, p, i, f, U, nread):
    x = p["reactions"][i]
    r = x["r"]
    ops, first, late = [], [], []
    acts = [k for k, a in enumerate(p["actions"]) if a["r"] == r and not (a["phys"] and a["min"] == 0)]
    lacts = [k for k in acts if not p["actions"][k]["phys"]]
    reads = x["read"]
    heap_in = [(k, c) for k, (kind, ii) in enumerate(reads) if kind != 1 and p["ins"][ii]["pt"] for c in range(p["ins"][ii]["w"])]
    heap_act = [ii for kind, ii in reads if kind == 1 and p["actions"][ii]["pt"] in (1, 2)]
    outs = x["eff"]
    n = d.size(0, f["ops"])
    wrote16 = set()
    for _ in range(n):
        choices = []
        if outs:
            choices += [1, 1, 2]
            if heap_in:
                choices += [3, 3]
            if heap_act:
                choices += [4]
            choices += [6]
        if acts:
            choices += [7, 7, 7]
            if heap_in:
                choices += [8]
            if heap_act:
                choices += [9]
        if heap_in and f["mutable"]:
            choices += [5, 5, 16]
        if f["work"]:
            choices += [11] * (1 if f["work"] < 50 else 3)
        if f["block"]:
            choices += [17]
        if f["chk"] and x["deadline"] >= 0:
            choices += [15]
        if not choices:
            break
        op = d.pick(choices)
        g = guard(d)
        if op == 1:
            o = d.pick(outs)
            ops.append([1] + g + [o, d.below(p["outs"][o]["w"])])
        elif op == 2:
            c = [o for o in outs if p["outs"][o]["pt"] == 1]
            if c:
                o = d.pick(c)
                ops.append([2] + g + [o, d.below(p["outs"][o]["w"]), d.pick([3, 1, 20, 0, 7])])
        elif op == 3:
            k, c = d.pick(heap_in)
            pt = p["ins"][reads[k][1]]["pt"]
            co = [o for o in outs if p["outs"][o]["pt"] == pt]
            if co:
                o = d.pick(co)
                ops.append([3] + g + [o, d.below(p["outs"][o]["w"]), k, c])
        elif op == 4:
            a = d.pick(heap_act)
            co = [o for o in outs if p["outs"][o]["pt"] == p["actions"][a]["pt"]]
            if co:
                o = d.pick(co)
                ops.append([4] + g + [o, d.below(p["outs"][o]["w"]), a])
        elif op == 5:
            c = [(k, c) for k, c in heap_in if p["ins"][reads[k][1]]["mut"]]
            if c:
                k, ch = d.pick(c)
                first.append([5] + g + [k, ch])
        elif op == 16:
            c = [(k, c) for k, c in heap_in if not p["ins"][reads[k][1]]["mut"] and nread.get(reads[k][1], 0) == 1 and (k, c) not in wrote16]
            # the same source channel must not be readable through another channel of this reaction
            def unique(k, c):
                s = p["ins"][reads[k][1]]["src"][c]
                return s and sum(1 for inp in p["ins"] if inp["r"] == r for t in inp["src"] if t == s) == 1
            c = [kc for kc in c if unique(*kc)]
            if c:
                k, ch = d.pick(c)
                wrote16.add((k, ch))
                late.append([16] + g + [k, ch])
        elif op == 6:
            c = [(o, ch) for o in outs if p["outs"][o]["pt"] for ch in range(p["outs"][o]["w"])]
            if c:
                a = d.pick(c)
                b = d.pick([y for y in c if p["outs"][y[0]]["pt"] == p["outs"][a[0]]["pt"]])
                if a != b:
                    ops.append([6] + g + [a[0], a[1], b[0], b[1], d.pick([3, 1, 20])])
        elif op == 7:
            a = d.pick(acts)
            ex = d.weighted([(4, 0), (2, U), (2, 2 * U), (1, 5 * U), (1, 13 * U), (1, -U), (1, 1)])
            if f["delays"] and d.chance(1, 3):
                ex = d.pick([-1, 3 * U, 20 * U, U - 1, U + 1, -rp.FOREVER, rp.FOREVER - 5, rp.FOREVER, 1 << 61])
            if p["actions"][a]["min"] + max(ex, 0) == 0 and g[0] == 1:
                g = [2, d.below(2)]
            kind = d.below(4) if p["actions"][a]["pt"] else 0
            if p["actions"][a]["pt"] == 3:
                kind = d.pick([0, 0, 0, 3])
            if p["actions"][a]["pt"] == 2 and kind == 0:
                kind = 1
            ops.append([7] + g + [a, ex, kind])
        elif op == 8:
            k, c = d.pick(heap_in)
            pt = p["ins"][reads[k][1]]["pt"]
            ca = [a for a in lacts if p["actions"][a]["pt"] == pt]
            if ca:
                a = d.pick(ca)
                ops.append([8] + g + [a, d.pick([0, 1, 2, 5]) * U, k, c])
        elif op == 9:
            s = d.pick(heap_act)
            ca = [a for a in lacts if p["actions"][a]["pt"] == p["actions"][s]["pt"]]
            if ca:
                a = d.pick(ca)
                ex = d.pick([1, 0, 2, 5]) * U
                if p["actions"][a]["min"] + ex == 0 and g[0] == 1:
                    g = [2, d.below(2)]
                ops.append([9] + g + [a, ex, s])
        elif op == 11:
            ops.append([11] + g + [d.pick([1, 2, 5, 10, 20]) * U + d.pick([0, 1])])
        elif op == 17:
            ops.append([17, 2, d.below(2), d.pick([1, 2, 5, 10]) * U + d.pick([0, 1])])
        elif op == 15:
            ops.append([15] + g + [d.below(2)])
    if f["stop"] and d.chance(f["stop"], 60):
        ops.append([10, 8, d.below(8)])
    return first + ops + late


def gen_inject(d, p, f, U):
    phys = [i for i, a in enumerate(p["actions"]) if a["phys"]]
    n = d.int(1, 3) if phys else 0
    for _ in range(n):
        t = 0
        ev = []
        for _ in range(d.size(1, f["inject"])):
            t += d.pick([0, 1, 2, 3, 7]) * U + d.pick([0, 0, 0, 1, -1])
            t = max(t, 0)
            a = d.pick(phys)
            pt = p["actions"][a]["pt"]
            kind = 0 if pt == 0 else d.pick([0, 1, 2]) if pt == 1 else d.pick([1, 2]) if pt == 2 else 0
            ev.append([t, kind, a, d.pick([0, 0, 1, 2, 5]) * U, 1024 * (len(p["inj"]) + 1) + len(ev) + 1])
        p["inj"].append(ev)


def assign_modes(d, p, f, U, per):
    """Makes some reactors modal, nests reactors in modes, and puts reactions, actions and timers into modes."""
    X = p["reactions"]
    R = p["reactors"]
    live = [r for r in per if per[r]]
    modal = {}
    for r in live:
        if d.chance(2, 3) or (r == live[-1] and not modal):
            modal[r] = []
            for _ in range(d.int(2, 3)):
                modal[r].append(len(p["modes"]))
                p["modes"].append(dict(reactor=r))
    outer = set()
    for r in range(len(R)):
        R[r]["mode"] = -1
        q = [k for k in modal if k < r]
        if q and d.chance(1, 2):
            k = d.pick(q)
            R[r]["mode"] = d.pick(modal[k])
            if r in modal:
                outer.add(k)
    history_outer = d.chance(1, 2)
    together = d.pick([0, 0, 2, 1]) * U if outer else 0   # reactors that switch at the same tags
    for i, x in enumerate(X):
        if x["r"] in modal and d.chance(4, 5):
            x["mode"] = d.pick(modal[x["r"]])
    for i, a in enumerate(p["actions"]):
        if a["r"] in modal and d.chance(2, 3):
            a["mode"] = d.pick([X[k]["mode"] for k in per[a["r"]]])
            if a["mode"] >= 0:
                for k in per[a["r"]]:
                    x = X[k]
                    if x["mode"] != a["mode"]:
                        x["trig"] = [t for t in x["trig"] if t != [1, i]]
                        for w in ("body", "hand"):
                            x[w] = [o for o in x[w] if not (o[0] in (7, 8, 9) and o[3] == i)]
        if a["mode"] >= 0 or R[a["r"]]["mode"] >= 0:
            a["spacing"] = 0
    for i, t in enumerate(p["timers"]):
        if t["r"] in modal and d.chance(3, 4):
            t["mode"] = d.pick([X[k]["mode"] for k in per[t["r"]]])
            if t["mode"] >= 0:
                for k in per[t["r"]]:
                    if X[k]["mode"] != t["mode"]:
                        X[k]["trig"] = [e for e in X[k]["trig"] if e != [2, i]]
    for x in X:
        r = x["r"]
        if r in modal:
            for which in ("body", "hand") if x["deadline"] >= 0 else ("body",):
                for _ in range(d.pick([1, 0, 1, 2])):
                    m = d.pick(modal[r])
                    kind = d.int(1, 2)
                    if r in outer and history_outer:
                        kind = 2
                    if not history_outer and R[r]["mode"] >= 0 and m != modal[r][0]:
                        kind = 1
                    x[which].insert(d.below(len(x[which]) + 1), [12] + guard(d) + [m, kind])
            if d.chance(1, 2):
                # something that keeps switching: a timer that triggers this reaction
                t = dict(r=r, offset=d.pick([1, 0, 2, 3]) * U + d.pick([0, 0, 1]), period=d.pick([3, 2, 5, 7, 1]) * U, mode=d.pick([-1, x["mode"]]))
                if together and d.chance(2, 3):
                    t["offset"] = t["period"] = together
                p["timers"].append(t)
                x["trig"].append([2, len(p["timers"]) - 1])
        if x["mode"] >= 0 or R[r]["mode"] >= 0:
            x["reset"] = int(d.chance(1, 3))
    for m, v in enumerate(p["modes"]):
        cand = [v["reactor"]] + [r for r in range(len(R)) if R[r]["mode"] == m]
        if f["resets"] and d.chance(1, 3):
            p["resets"].append([m, d.pick(cand)])


def gen_wd(d, p, f, U, live):
    X = p["reactions"]
    for _ in range(d.int(1, f["wd"])):
        r = d.pick(live)
        p["wds"].append(dict(r=r, min=d.pick([2, 1, 0, 3, 5, 10]) * U, body=[]))
    for i, w in enumerate(p["wds"]):
        mine = [k for k, v in enumerate(p["wds"]) if v["r"] == w["r"]]
        pa = [k for k, a in enumerate(p["actions"]) if a["r"] == w["r"] and a["phys"]]
        b = []
        for _ in range(d.int(0, 3)):
            c = [11] if f["work"] else []
            c += [18, 14] + ([7, 7, 7] if pa else [])
            op = d.pick(c[::-1])
            if op == 7:
                a = d.pick(pa)
                pt = p["actions"][a]["pt"]
                b.append([7, 1, 0, a, d.pick([0, 0, 1, 3]) * U, {0: 0, 1: d.below(3), 2: 1 + d.below(2), 3: 0}[pt]])
            elif op == 14:
                b.append([14, 1, 0, d.pick(mine)])
            elif op == 18:
                b.append([18, 1, 0, d.pick(mine), d.pick([1, 2, 5]) * U])
            else:
                b.append([11, 1, 0, d.pick([1, 2, 5]) * U])
        w["body"] = b
        for x in X:
            if x["r"] != w["r"]:
                continue
            for which in ("body", "hand") if x["deadline"] >= 0 else ("body",):
                for _ in range(d.int(0, 2)):
                    op = d.pick([13, 13, 14])
                    o = [op] + guard(d) + [i]
                    if op == 13:
                        add = d.pick([0, 0, 1, 2, 5, -1]) * U + d.pick([0, 0, 1])
                        if d.chance(1, 20):
                            add = d.pick([rp.FOREVER, 1 << 62])
                        o.append(add)
                    x[which].insert(d.below(len(x[which]) + 1), o)


def config(d, mem=False, workers=(1, 2, 3, 4, 8), tick=(0, 1)):
    c = dict(seed=d.int(1, 1 << 30), policy=d.pick([1, 0, 2]), sync=d.pick([1, 2, 4, 10, 40]), mem=0, pct=d.int(1, 8), tick=d.pick(tick),
             spurious=d.pick([0, 0, 50, 5]), workers=d.pick(workers))
    if mem:
        c["mem"] = d.pick([20, 5, 2, 100, 1, 500])
    return c
