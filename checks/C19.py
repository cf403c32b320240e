import re
from vlib import pbt, unitcheck

TECH = "value"
NEVER, FOREVER = -2**63, 2**63 - 1
UNITS = dict(ns=1, us=10**3, ms=10**6, s=10**9, min=60 * 10**9, h=3600 * 10**9, hr=3600 * 10**9, d=86400 * 10**9, weeks=7 * 86400 * 10**9)
NUM = re.compile(r"(0|[1-9]\d{0,2}(,\d{3})*)$")


def number(s):
    if not NUM.match(s):
        raise ValueError("%r is not a number with commas" % s)
    return int(s.replace(",", ""))


def parse(s):
    if s == "0":
        return 0
    sign, body = (-1, s[1:]) if s.startswith("-") else (1, s)
    tot, last = 0, None
    for clause in body.split(", "):
        n, u = clause.split(" ")
        if last is not None and UNITS[u] >= last:
            raise ValueError("units out of order")
        if number(n) == 0:
            raise ValueError("empty clause")
        last = UNITS[u]
        tot += number(n) * UNITS[u]
    return sign * tot


class C(unitcheck.UnitCheck):
    id = "C19"
    rule = "a group of 20 times containing one of at least a second in magnitude; both renderings are parsed back"
    quick = dict(n=10**9, seconds=25)
    thorough = dict(n=10**9, seconds=150)

    def gen(self, d, i):
        def t():
            k = d.below(7)
            if k == 0:
                return d.below(2000)
            if k == 1:
                return d.pick([0, 1, -1, NEVER, FOREVER, NEVER + 1, FOREVER - 1])
            if k == 2:
                return d.int(NEVER, FOREVER)
            if k == 3:
                return d.pick([1, -1]) * (10 ** d.below(19) + d.int(-1, 1))
            if k == 4:
                return d.pick([1, 1, -1]) * (d.pick(sorted(UNITS.values())) * d.below(1100) + d.int(-1, 1))
            if k == 5:
                return sum(u * d.below(4) for u in UNITS.values())
            return (1 << d.below(63)) - 1
        return dict(ts=[max(NEVER, min(FOREVER, t())) for _ in range(20)])

    def line(self, case):
        return "f " + " ".join(map(str, case["ts"]))

    def run(self, case):
        ans, bad = self.srv.ask(self.line(case))
        if bad:
            return pbt.Result(bad)
        parts = ans.split("|")
        for n, t in enumerate(case["ts"]):
            l1, s1, l2, s2 = parts[4 * n:4 * n + 4]
            try:
                if int(l1) != len(s1):
                    return pbt.Result("length: lf_readable_time(%d) wrote %r and returned %s" % (t, s1, l1))
                if int(l2) != len(s2):
                    return pbt.Result("length: lf_comma_separated_time(%d) wrote %r and returned %s" % (t, s2, l2))
                if parse(s1) != t:
                    return pbt.Result("readable: lf_readable_time(%d) wrote %r" % (t, s1))
                if (-number(s2[1:]) if s2[0] == "-" else number(s2)) != t:
                    return pbt.Result("comma: lf_comma_separated_time(%d) wrote %r" % (t, s2))
            except (ValueError, KeyError, IndexError) as e:
                return pbt.Result("format: of %d is %r, %r: %s" % (t, s1, s2, e))
        return pbt.Result(None, any(abs(t) >= 10**9 for t in case["ts"]), stats=dict(times=len(case["ts"])))


if __name__ == "__main__":
    pbt.main(C())
