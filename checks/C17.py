from vlib import pbt, unitcheck
from vlib.unitcheck import Mismatch

TECH = "value"
NEVER, FOREVER, UMAX = -2**63, 2**63 - 1, 2**32 - 1
FT, NT = (FOREVER, UMAX), (NEVER, 0)


def time_add(a, b):
    if NEVER in (a, b):
        return NEVER
    if FOREVER in (a, b):
        return FOREVER
    return max(NEVER, min(FOREVER, a + b))


def delay(t, i):
    """The tag, or a function deciding on it where the specification leaves a choice."""
    if t[0] == NEVER or i < 0:
        return t
    if t[0] == FOREVER:
        return FT
    if i == 0:
        return (t[0], t[1] + 1) if t[1] < UMAX else FT
    if t[0] + i >= FOREVER:
        return FT
    return (t[0] + i, 0)


class C(unitcheck.UnitCheck):
    id = "C17"
    rule = "a group of 40 calls of the tag functions of which at least one saturates, wraps a component or has an extreme operand; the model uses unbounded integers"
    quick = dict(n=10**9, seconds=25)
    thorough = dict(n=10**9, seconds=200)

    def gen(self, d, i):
        def t():
            k = d.below(8)
            if k < 3:
                return d.int(0, 1000)
            if k == 3:
                return d.pick([0, FOREVER, NEVER, FOREVER - 1, NEVER + 1, -1, 1])
            if k == 4:
                return d.pick([FOREVER - 1, NEVER + 1]) + d.int(-1000, 0) * 1 if False else FOREVER - d.below(1000)
            if k == 5:
                return NEVER + d.below(1000)
            if k == 6:
                return d.int(NEVER, FOREVER)
            return d.pick([1, -1]) * (1 << d.below(63)) + d.int(-1, 1)

        def m():
            k = d.below(5)
            return d.below(3) if k < 2 else UMAX - d.below(3) if k == 2 else d.below(UMAX + 1) if k == 3 else d.pick([2**31, 2**31 - 1, 2**16])
        t2 = lambda: max(NEVER, min(FOREVER, t()))
        ops, last = [], 0
        for _ in range(40):
            op = d.below(5)
            a = t2() if d.below(4) else last
            last = a
            if op == 0:
                b = a if d.below(3) == 0 else t2()
                ops.append([0, a, m(), b, m()])
            elif op == 1:
                b = d.pick([FOREVER - a, FOREVER - a + 1, NEVER - a, NEVER - a - 1, FOREVER - a - 1]) if d.below(3) == 0 else t2()
                ops.append([1, a, max(NEVER, min(FOREVER, b))])
            else:
                b = d.pick([FOREVER - a, FOREVER - a + 1, NEVER - a, FOREVER - a - 1, 0, 1]) if d.below(3) == 0 else t2()
                b = max(NEVER, min(FOREVER, b))
                ops.append([op, a, m(), b] + ([m()] if op == 2 else []))
        return dict(ops=ops)

    def line(self, case):
        return "t " + " ".join(str(x) for o in case["ops"] for x in o)

    def judge(self, case, w, st):
        nt = False
        for n, o in enumerate(case["ops"]):
            what = "call %s" % o
            op = o[0]
            if any(abs(x) > 2**62 for x in o[1:]):
                nt = True
            if op == 0:
                a, b = tuple(o[1:3]), tuple(o[3:5])
                w.expect((a > b) - (a < b), "compare: " + what)
            elif op == 1:
                w.expect(time_add(o[1], o[2]), "time_add: " + what)
            else:
                g = (w.int(), w.int())
                a = tuple(o[1:3])
                if op == 2:
                    r = time_add(o[1], o[3])
                    ms = (0 if o[3] > 0 else o[2]) + o[4]
                    e = FT if r == FOREVER else NT if r == NEVER else (r, ms) if ms <= UMAX else FT
                    if g != e:
                        raise Mismatch("tag_add: %s returned %s, expected %s" % (what, g, e))
                elif op == 3:
                    e = delay(a, o[3])
                    if g != e and not (o[3] == FOREVER and a[0] < 0 and a[0] != NEVER and g[0] == FOREVER):
                        raise Mismatch("delay: %s returned %s, expected %s" % (what, g, e))
                else:
                    # the largest tag strictly before the arrival of whatever is sent after the given tag
                    i = o[3]
                    if a[0] == NEVER or i < 0:
                        e = a
                    elif i == 0:
                        e = delay(a, 0)
                    else:
                        e = delay(a, i)
                        e = FT if e == FT else (e[0] - 1, UMAX)
                    ok = g == e
                    if i == FOREVER and a[0] != NEVER:
                        ok = g[0] == FOREVER or a[0] < 0
                    if not ok:
                        raise Mismatch("delay_strict: %s returned %s, expected %s" % (what, g, e))
            if w.take() != ";":
                raise Mismatch("answer: " + what)
            st["calls"] = st.get("calls", 0) + 1
        return nt


if __name__ == "__main__":
    pbt.main(C())
