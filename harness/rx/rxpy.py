"""The Python part of generated programs: reactions that observe their triggers through the Python API and digest them as rx.c does."""
import sys
import rxh
import LinguaFrancaRx as lf

M = 2**64 - 1
REACT = {}
ACTIONS = []
reactor_lst = []


class Obj:
    def __init__(self, v, n):
        self.d = [v + i * 3 for i in range(n)]

    def __eq__(self, o):
        return type(o) is Obj and o.d == self.d


def mix(h, v):
    h = ((h ^ (v & M)) * 0x9E3779B97F4A7C15) & M
    return h ^ (h >> 29)


def arr(v, n):
    return [v + i * 5 for i in range(n)]


def s64(v):
    v &= M
    return v - 2**64 if v >> 63 else v


def check(c, what):
    if not c:
        raise AssertionError(what)


def raises(e, f, *a):
    try:
        f(*a)
    except e:
        return
    raise AssertionError("no %s" % e.__name__)


def add(x, reactor, number, reads, outs, body, hand):
    REACT[x] = (reactor, number, reads, outs, body, hand)


def make(x, ops, handler):
    reads, outs = REACT[x][2], REACT[x][3]
    return lambda self, r, o, a, m: self.execute(x, handler, reads, outs, ops, r, o, a, m)


def tags(tag, h):
    """The Tag type against tuples."""
    t = (tag.time, tag.microstep)
    check(str(tag) == "Tag(time=%d, microstep=%d)" % t, "str of a tag")
    if h % 3:
        return
    o = (TIMES[h // 3 % len(TIMES)] if h & 64 else tag.time + (h >> 8) % 5 - 2, STEPS[h // 64 % len(STEPS)] if h & 128 else max(0, tag.microstep + (h >> 12) % 5 - 2))
    b = lf.Tag(*o) if h & 256 else lf.Tag(microstep=o[1], time=o[0])
    check((b.time, b.microstep) == o, "a tag's parts")
    for x, y, p, q in ((tag, b, t, o), (b, tag, o, t)):
        check([x < y, x <= y, x == y, x != y, x > y, x >= y] == [p < q, p <= q, p == q, p != q, p > q, p >= q], "comparison of tags")
        check(lf.tag_compare(x, y) == (p > q) - (p < q), "tag_compare")
    raises(TypeError, lambda: tag < 3)
    raises(TypeError, lf.tag_compare, tag, t)
    raises(TypeError, lf.Tag)
    raises(TypeError, lf.Tag, "a", 0)
    raises(OverflowError, lf.Tag, 2**63, 0)


TIMES = [-2**63, -2**63 + 1, -1, 0, 1, 2**31, 2**32, 2**63 - 2, 2**63 - 1]
STEPS = [0, 1, 2, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1]


class Reactor:
    def execute(self, x, handler, rdesc, odesc, ops, reads, outs, acts, modes):
        tag = lf.tag()
        et = tag.time - lf.time.start()
        check(lf.time.logical() == tag.time and lf.time.logical_elapsed() == et, "logical time")
        at = lf.time.physical() - lf.time.start()
        check(at <= lf.time.physical_elapsed(), "physical time")
        check(lf.tag_compare(tag, lf.Tag(tag.time, tag.microstep)) == 0 and tag == lf.Tag(time=tag.time, microstep=tag.microstep), "tag equality")
        h = mix(mix(mix(x * 2 + handler, 0x51ed27), et), tag.microstep)
        tags(tag, mix(h, self.state))
        for i, ((kind, id, pt, w), cap) in enumerate(zip(rdesc, reads)):
            if kind == 1:
                h = mix(h, 100 + i)
                if not cap.is_present:
                    h = mix(h, 2)
                else:
                    h = mix(h, 1)
                    if pt:
                        h = self.value(h, pt, cap.value) if cap.value is not None else mix(h, 78)
                continue
            h = mix(h, 200 + i)
            ch = self.channels(cap, id, w, h)
            if kind == 2:
                for c, p in enumerate(ch):
                    if p.is_present:
                        h = self.port(mix(h, 300 + c), pt, p)
            else:
                for p in ch:
                    h = self.port(h, pt, p)
            rxh.yield_()
        h = mix(h, self.state)
        # (schedule gives the new value to the action's object, too)
        had = {id: (c.is_present, c.value) for id, c in acts.items()}
        for k, (op, gm, ge, a) in enumerate(ops):
            if (h >> 8) % gm != ge:
                continue
            v = mix(h, 1000 + k)
            sv = v >> 3
            if op in (1, 2, 6):
                pt = odesc[a[0]][0]
                val = Obj(sv, sv % 16) if pt == 2 else arr(sv, a[4] if op == 6 else a[2] if op == 2 else 1) if pt == 1 else sv
                self.set(outs[a[0]], a[0], odesc[a[0]][1], a[1], val, h)
                if op == 6:
                    self.set(outs[a[2]], a[2], odesc[a[2]][1], a[3], val, h)
                if pt and h & 64:
                    check(rxh.roundtrip(val) == val, "serializer")
            elif op == 3:
                p = self.one(reads[a[2]], rdesc[a[2]], a[3])
                if p.is_present:
                    self.set(outs[a[0]], a[0], odesc[a[0]][1], a[1], p.value, h)
                    h = mix(h, 31)
            elif op in (4, 9):
                there, val = had[a[2]]
                if there and val is not None:
                    if op == 4:
                        self.set(outs[a[0]], a[0], odesc[a[0]][1], a[1], val, h)
                    else:
                        acts[a[0]].schedule(a[1], val)
                    h = mix(h, 32 if op == 4 else 34)
            elif op == 7:
                self.schedule(acts[a[0]], ACTIONS[a[0]], a[1], sv, a[2])
            elif op == 8:
                p = self.one(reads[a[2]], rdesc[a[2]], a[3])
                if p.is_present:
                    acts[a[0]].schedule(a[1], p.value)
                    h = mix(h, 33)
            elif op == 10:
                rxh.tr("S %d %d" % (et, tag.microstep))
                lf.request_stop()
            elif op == 11:
                rxh.advance(a[0])
            elif op == 12:
                modes[(a[0], a[1])].set()
            else:
                raise AssertionError("operation %d" % op)
            rxh.yield_()
        self.state = mix(self.state, h)
        check(lf.tag() == tag, "the tag changed")
        return h

    def value(self, h, pt, v):
        if pt == 3:
            check(type(v) is int, "an int")
            return mix(h, v)
        if pt == 2:
            check(type(v) is Obj, "an object")
            h = mix(h, len(v.d))
            for e in v.d:
                h = mix(h, e)
            return h
        check(type(v) is list, "a list")
        h = mix(h, len(v))
        for e in v:
            h = mix(h, e)
        return h

    def port(self, h, pt, p):
        if not p.is_present:
            return mix(h, 2)
        return mix(mix(h, 1), p.value) if pt == 0 else self.value(mix(h, 1), pt, p.value)

    def channels(self, cap, id, w, h):
        """The channels of a port, read in one of the ways the API offers."""
        if w == 1 and id % 2 == 0:
            check(cap.width == -2, "width of a port")
            n = sys.getrefcount(cap)
            c0 = cap[0]
            check(c0 is cap and sys.getrefcount(cap) == n + 1, "a subscript of a port is the port, and a reference to it")
            del c0
            return [cap[0] if h & 1 else cap]
        check(len(cap) == w and cap.width == w and cap.value is None and not cap.is_present, "a multiport's length, value and presence")
        if h & 2:
            r = [cap[i] for i in range(w)]
        else:
            if h & 4:
                for _ in cap:
                    break
            r = [p for p in cap]
        check(len(r) == w, "the number of channels")
        if h & 8:
            raises(IndexError, lambda: cap[w])
            raises(IndexError, lambda: cap[-w - 1])
        if h & 16:
            raises(TypeError, lambda: cap["0"])
            raises(TypeError, cap.__setitem__, 0, 1)
            raises(OverflowError, lambda: cap[2**70])
        return r

    def one(self, cap, d, c):
        return cap if d[3] == 1 and d[1] % 2 == 0 else cap[c]

    def set(self, cap, id, w, c, val, h):
        if w == 1 and id % 2 == 0:
            p = cap
        else:
            p = cap[c]
        raises(TypeError, p.set) if h & 32 else None
        p.set(val)
        check(p.is_present and p.value is val, "a port after set")
        if p is not cap:
            q = cap[c]
            check(q.is_present and q.value is val, "a channel after set")

    def schedule(self, cap, pt, delay, sv, kind):
        if pt == 0:
            cap.schedule(delay)
        elif kind == 3:
            cap.schedule(delay)
        elif pt == 3:
            v = sv & 0xffffffff
            cap.schedule(delay, v - 2**32 if v >> 31 else v)
        elif pt == 2:
            cap.schedule(delay, Obj(sv, sv % 16))
        else:
            cap.schedule(delay, arr(sv, 17 + sv % 5))


def ready(n, state0):
    for i in range(n):
        t = type("R%d" % i, (Reactor,), {})
        t.state = state0 + i
        reactor_lst.append(t())
    for x, (r, k, _, _, body, hand) in REACT.items():
        setattr(type(reactor_lst[r]), "reaction_function_%d" % k, make(x, body, 0))
        setattr(type(reactor_lst[r]), "deadline_function_%d" % k, make(x, hand, 1))


def main(args):
    lf.start(args)
