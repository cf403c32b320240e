from vlib import pbt, unitcheck
from vlib.unitcheck import Mismatch

TECH = "value"


class C(unitcheck.UnitCheck):
    id = "C20"
    rule = "a number with at least 2 digits, a permutation that is not the identity and more steps than the first radix; after every increment the digits, the value and the value of the parent are compared with positional arithmetic"
    quick = dict(n=10**9, seconds=25)
    thorough = dict(n=10**9, seconds=150)

    def gen(self, d, i):
        n = d.size(1, 8)
        rad, prod = [], 1
        for _ in range(n):
            r = d.pick([2, 1, 3, d.int(1, 10), d.int(1, 100)])
            r = max(1, min(r, (2**31 - 1) // prod))
            rad.append(r)
            prod *= r
        left, perm = list(range(n)), []
        while left:
            perm.append(left.pop(d.below(len(left))))
        dig = [d.below(r) for r in rad]
        steps = min(prod + 2, d.pick([20, 200, 3]))
        return dict(d=dig, r=rad, p=perm, steps=steps, drop=d.below(n + 2))

    def line(self, c):
        return "r " + " ".join(map(str, [len(c["d"])] + c["d"] + c["r"] + c["p"] + [c["steps"], c["drop"]]))

    def judge(self, c, w, st):
        n, r, p = len(c["d"]), c["r"], c["p"]
        prod = 1
        for x in r:
            prod *= x
        # the number denoted by the digits taken in the order of the permutation counts the increments
        val, f = 0, 1
        for k in p:
            val += c["d"][k] * f
            f *= r[k]
        for s in range(c["steps"] + 1):
            x, dig = (val + s) % prod, [0] * n
            for k in p:
                dig[k] = x % r[k]
                x //= r[k]
            what = "after %d increments of %s (radixes %s, permutation %s)" % (s, c["d"], r, p)

            def pos(a):
                t, f = 0, 1
                for k in range(a, n):
                    t += dig[k] * f
                    f *= r[k]
                return t
            w.expect(pos(0), "value: " + what)
            w.expect(pos(c["drop"]), "parent %d: %s" % (c["drop"], what))
            for k in range(n):
                w.expect(dig[k], "digit %d: %s" % (k, what))
        for k in range(n):
            w.expect(r[k], "radix changed")
            w.expect(p[k], "permutation changed")
        st["increments"] = c["steps"]
        return n >= 2 and p != sorted(p) and c["steps"] > r[p[0]]


if __name__ == "__main__":
    pbt.main(C())
