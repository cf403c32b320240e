"""F03: the RTI's minimum delays and cycle flags against shortest paths computed here."""
from vlib import build, pbt, unitcheck
from vlib.unitcheck import Mismatch

TECH = "value"
FOREVER = 2**63 - 1
NEVER = -2**63


def add(c, r):
    """A message delayed by the connection c (None: not at all, 0: a microstep), and then by the path with delay r."""
    t, m = (0, 0) if c is None else (0, 1) if c == 0 else (c, 0)
    if r[0] > 0:
        m = 0
    if t + r[0] >= FOREVER:
        return None
    return (t + r[0], m + r[1])


def delays(n, ups, conn, end):
    best = {}
    work = [(end, (0, 0))]
    first = True
    while work:
        x, r = work.pop()
        if not conn[x] or (x == end and not first):
            continue
        first = False
        for u, c in ups[x]:
            p = add(c, r)
            if p is not None and (u not in best or p < best[u]):
                best[u] = p
                work.append((u, p))
    return best


class C(unitcheck.UnitCheck):
    id = "F03"
    exe_fn = staticmethod(build.delays)
    rule = "a topology with at least three nodes and a transitive upstream node whose least delay is not that of a direct connection"
    quick = dict(n=10**9, seconds=25)
    thorough = dict(n=10**9, seconds=240)

    def gen(self, d, i):
        n = d.weighted([(6, d.int(1, 6)), (3, d.int(4, 14)), (1, d.int(10, 40))])
        bias = d.weighted([
            (3, [(3, None), (2, 0), (3, 1), (2, 2), (1, 3), (1, 10)]),
            (2, [(1, None)]),
            (2, [(6, None), (1, 0), (1, 5)]),
            (1, [(1, 0)]),
            (1, [(2, 1), (2, 2), (1, 3), (1, 7), (1, 1000000000)]),
            (1, [(2, None), (2, 1), (2, FOREVER // 2), (2, FOREVER // 2 - 1), (1, FOREVER - 1), (1, FOREVER)])])
        shape = d.below(5)
        pairs = []
        if shape == 0:
            pairs = [(d.below(n), d.below(n)) for _ in range(d.int(0, 3 * n))]
        elif shape == 1:
            pairs = [(k, (k + 1) % n) for k in range(n)] + [(d.below(n), d.below(n)) for _ in range(d.below(n + 1))]
        elif shape == 2:
            pairs = [(min(a, b), max(a, b)) for a, b in [(d.below(n), d.below(n)) for _ in range(d.int(0, 3 * n))]]
            if d.chance(1, 2):
                pairs += [(d.below(n), d.below(n))]
        elif shape == 3:
            pairs = [(a, b) for a in range(n) for b in range(n) if n <= 7 or d.chance(1, 4)]
        else:
            for k in range(n - 1):
                pairs += [(k, k + 1)] + ([(k + 1, k)] if d.chance(1, 2) else [])
            if n > 2:
                pairs += [(d.below(n - 1), n - 1)]
        selfloops = d.chance(1, 10)
        perm = list(range(n))
        for k in range(n - 1, 0, -1):
            j = d.below(k + 1)
            perm[k], perm[j] = perm[j], perm[k]
        ups = [{} for _ in range(n)]
        for a, b in pairs:
            if a != b or selfloops:
                ups[perm[b]][perm[a]] = d.weighted(bias)
        conn = [0 if d.chance(1, 15) else 1 for _ in range(n)]
        qs = []
        alive = list(conn)
        for _ in range(d.int(n, 4 * n)):
            if d.chance(1, 12):
                x = d.below(n)
                qs.append(-1 - x)
                alive[x] = 0
            else:
                qs.append(d.below(n) * 3 + d.below(3))
        return dict(n=n, ups=[[[u, c] for u, c in x.items()] for x in ups], conn=conn, qs=qs)

    def line(self, c):
        w = [c["n"]]
        for x, k in zip(c["ups"], c["conn"]):
            w += [k, len(x)]
            for u, dl in x:
                w += [u, NEVER if dl is None else dl]
        return " ".join(map(str, w + c["qs"]))

    def judge(self, c, w, st):
        conn = list(c["conn"])
        nt = False
        cache = {}
        for q in c["qs"]:
            if q < 0:
                conn[-1 - q] = 0
                cache = {}
                continue
            e, kind = divmod(q, 3)
            if e not in cache:
                cache[e] = delays(c["n"], c["ups"], conn, e)
            best = cache[e]
            if kind:
                got = w.int()
                if not conn[e]:
                    continue
                want = int(e in best and (kind == 1 or best[e] == (0, 0)))
                st["in a cycle" if kind == 1 else "in a zero-delay cycle"] = st.get("in a cycle" if kind == 1 else "in a zero-delay cycle", 0) + want
                if got != want:
                    raise Mismatch("cycle: node %d is %srecognised as part of a %scycle" % (e, "" if got else "not ", "zero-delay " if kind == 2 else ""))
                continue
            k = w.int()
            got = {}
            for _ in range(k):
                u = w.int()
                got[u] = (w.int(), w.int())
            if not conn[e]:
                continue
            for u in set(got) | set(best):
                if got.get(u) != best.get(u) and not (not conn[u] and u not in got):
                    raise Mismatch("delay: the delay from node %d to node %d is %s, the least is %s" % (u, e, got.get(u), best.get(u)))
                st["delays"] = st.get("delays", 0) + 1
            direct = {u: add(x, (0, 0)) for u, x in c["ups"][e]}
            if c["n"] >= 3 and any(best[u] != direct.get(u) for u in best):
                nt = True
        return nt


if __name__ == "__main__":
    pbt.main(C())
