from vlib import pbt, unitcheck
from vlib.unitcheck import Mismatch

TECH = "value"


class C(unitcheck.UnitCheck):
    id = "C16"
    rule = ("a history of at least 10 operations on one container with at least one removal, search or iteration of a non-empty container "
            "(hash sets: elements chosen to collide; hash maps: up to the full capacity)")
    quick = dict(n=10**9, seconds=25)
    thorough = dict(n=10**9, seconds=300)

    def gen(self, d, i):
        avg = d.pick([30, 8, 100, 400])
        k = "SMVD"[d.below(4)]
        ops = []
        if k == "S":
            nbits = d.pick([3, 0, 1, 2, 4, 6])
            step = d.pick([1, 8, 16, 64, 1024, 4096, 2**20])
            pool = d.pick([4, 2, 12, 40, 300])
            key = lambda: 2 + d.below(pool) * step + d.pick([0, 0, 0, 1])
            wa, wr = d.int(1, 4), d.int(0, 4)
            while d.more(avg):
                o = d.weighted([(wa * 2, 0), (wr, 1), (2, 2), (1, 3)])
                ops.append([o] + ([key() if d.below(30) else d.below(2)] if o < 3 else []))
            return dict(k=k, head=[nbits], ops=ops)
        if k == "M":
            cap = d.pick([4, 1, 2, 3, 8, 17, 64])
            step = d.pick([1, cap, cap + 1, 2 * cap, 1000])
            nothing = d.pick([0, 2**63, 7])
            keys = []
            for n in range(cap):
                x = d.below(cap * 2) * step + d.pick([0, 0, 1, 2**40])
                if x != nothing and x not in keys:
                    keys.append(x)
            have = []
            while d.more(avg) and keys:
                if d.below(2) == 0 or not have:
                    x = d.pick(keys)
                    have.append(x)
                    ops.append([0, x, d.below(1000) - 500])
                else:
                    ops.append([1, d.pick(have)])
            return dict(k=k, head=[cap, nothing], ops=ops)
        val = lambda: 1 + d.below(1000)
        if k == "V":
            far = d.pick([3, 1, 10, 100])
            wpop = d.int(1, 5)
            size = 0
            while d.more(avg):
                o = d.weighted([(4, 0), (1, 1), (wpop * 2, 2), (2, 3), (2, 4), (2, 5)])
                if o == 0:
                    ops.append([0, val()])
                    size += 1
                elif o == 1:
                    n = d.below(d.pick([3, 12]))
                    ops.append([1, n] + [val() for _ in range(n)])
                    size += n
                elif o == 2:
                    for _ in range(d.pick([1, 1, 3, size + 1])):
                        ops.append([2])
                        size = max(0, size - 1)
                elif o in (3, 4):
                    j = max(0, d.below(size + far)) if d.below(3) else d.below(size + 1)
                    ops.append([o, j] + ([val()] if o == 4 else []))
                    size = max(size, j + 1)
                else:
                    ops.append([5])
            return dict(k=k, head=[d.pick([4, 1, 2, 16])], ops=ops)
        wpush = d.int(1, 4)
        while d.more(avg):
            o = d.weighted([(wpush, 0), (wpush, 1), (2, 2), (2, 3), (1, 4), (1, 5)])
            ops.append([o] + ([val() if d.below(20) else 0] if o < 2 else []))
        return dict(k=k, head=[d.below(2)], ops=ops)

    def line(self, case):
        return case["k"] + " " + " ".join(map(str, case["head"] + [x for o in case["ops"] for x in o]))

    def judge(self, case, w, st):
        st[{"S": "hash_set", "M": "hash_map", "V": "vector", "D": "deque"}[case["k"]]] = 1
        st["ops"] = len(case["ops"])
        return getattr(self, "judge_" + case["k"])(case, w) and len(case["ops"]) >= 10

    def judge_S(self, case, w):
        s, nt = set(), False
        for n, o in enumerate(case["ops"]):
            what = "set: operation %d %s" % (n, o)
            if o[0] < 3 and o[1] in (0, 1):   # nil and the mark of deleted items are never elements
                g = w.int()
                if (o[0] == 0 and g != -1) or (o[0] and g):
                    raise Mismatch("%s returned %d for a value that is never an element" % (what, g))
            elif o[0] == 0:
                g = w.int()
                if (g != 0) != (o[1] not in s):
                    raise Mismatch("%s returned %d" % (what, g))
                s.add(o[1])
            elif o[0] == 1:
                w.expect(1 if o[1] in s else 0, what)
                nt |= o[1] in s
                s.discard(o[1])
            elif o[0] == 2:
                w.expect(1 if o[1] in s else 0, what)
            else:
                if w.take() != "[":
                    raise Mismatch(what)
                got = []
                while True:
                    x = w.take()
                    if x == "]":
                        break
                    if x.startswith("has"):
                        raise Mismatch("%s: has_next and next disagree: %s" % (what, x))
                    got.append(int(x))
                if sorted(got) != sorted(s):
                    raise Mismatch("%s iterated over %s, expected %s" % (what, sorted(got)[:30], sorted(s)[:30]))
                nt |= bool(s)
            w.expect(len(s), "size: after " + what)
        return nt

    def judge_M(self, case, w):
        m, nt = {}, False
        for n, o in enumerate(case["ops"]):
            what = "map: operation %d %s" % (n, o)
            if o[0] == 0:
                w.expect(0, what)
                m[o[1]] = o[2]
            else:
                w.expect(m[o[1]], what)
                nt = True
        return nt

    def judge_V(self, case, w):
        v, nt = [], False
        for n, o in enumerate(case["ops"]):
            what = "vector: operation %d %s" % (n, o)
            if o[0] == 0:
                w.expect(0, what)
                v.append(o[1])
            elif o[0] == 1:
                w.expect(0, what)
                v += o[2:]
            elif o[0] == 2:
                nt |= bool(v)
                w.expect(v.pop() if v else 0, what)
            elif o[0] in (3, 4):
                v += [0] * (o[1] + 1 - len(v))
                if o[0] == 4:
                    v[o[1]] = o[2]
                    w.expect(0, what)
                else:
                    w.expect(v[o[1]], what)
            else:
                w.expect(0, what)
            w.expect(len(v), "size: after " + what)
        for x in v:
            w.expect(x, "vector: contents")
        return nt

    def judge_D(self, case, w):
        v, nt = [], False
        for n, o in enumerate(case["ops"]):
            what = "deque: operation %d %s" % (n, o)
            k = o[0]
            nt |= k > 1 and bool(v)
            if k == 0:
                v.insert(0, o[1])
            elif k == 1:
                v.append(o[1])
            exp = 0 if k < 2 or not v else v[0] if k in (2, 4) else v[-1]
            w.expect(exp, what)
            if v and k == 2:
                v.pop(0)
            elif v and k == 3:
                v.pop()
            w.expect(len(v), "size: after " + what)
            w.expect(0 if v else 1, "empty: after " + what)
        for x in v:
            w.expect(x, "deque: contents")
        return nt


if __name__ == "__main__":
    pbt.main(C())
