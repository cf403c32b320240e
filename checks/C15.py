from vlib import pbt, unitcheck
from vlib.unitcheck import Mismatch

TECH = "value"
NEVER, FOREVER, UMAX = -2**63, 2**63 - 1, 2**32 - 1


class C(unitcheck.UnitCheck):
    id = "C15"
    rule = ("a history of at least 12 operations on a reaction queue (two queues, 64-bit priorities with duplicates) or a tag queue (static and dynamic "
            "elements, extreme tags) with at least one removal from the middle or a search and a queue of 4 or more elements")
    quick = dict(n=10**9, seconds=25)
    thorough = dict(n=10**9, seconds=300)

    def gen(self, d, i):
        avg = d.pick([40, 10, 100, 300])
        grow = d.int(1, 4)
        if d.below(2) == 0:
            pri = d.pick([lambda: d.below(4), lambda: d.below(1000), lambda: d.pick([0, 1, 2**16, 2**32, 2**32 + 1, 2**48 + 5, 2**63 - 1, 2**63, 2**64 - 1]),
                          lambda: (d.below(6) << 16 | d.below(3)) + (d.below(3) << 48)])
            ops, inq, free = [], ({}, {}), list(range(300))
            init = [d.pick([1, 0, 2, 10]), d.pick([1, 0, 2, 10])]
            while d.more(avg):
                q = d.pick([0, 0, 1])
                k = d.weighted([(4 * grow, 0), (4, 1), (1, 2), (4, 3), (2, 4), (2, 5), (1, 6)])
                if k == 0 and free:
                    e, p = free.pop(0), pri()
                    inq[q][e] = p
                    ops.append([0, q, e, p])
                elif k == 3 and inq[q]:
                    e = d.pick(sorted(inq[q]))
                    ops.append([3, q, e])     # the model decides at run time whether it is still there
                    del inq[q][e]
                elif k == 4:
                    ops.append([4, q, d.pick(sorted(inq[q].values()) + [pri()])])
                elif k == 5 and (inq[q] or inq[1 - q]):
                    ops.append([5, q, d.pick(sorted(inq[q]) + sorted(inq[1 - q]))])
                elif k == 6:
                    ops.append([6, q])
                    inq[q].update(inq[1 - q])
                    inq[1 - q].clear()
                elif k in (1, 2):
                    ops.append([k, q])
                    if k == 1 and inq[q]:     # which one is popped among equals is not known here: any minimal one
                        m = min(inq[q].values())
                        cand = [e for e in inq[q] if inq[q][e] == m]
                        if len(cand) > 1:     # keep the history well defined: do not name these any more
                            for e in cand:
                                del inq[q][e]
                        else:
                            del inq[q][cand[0]]
            return dict(k="P", init=init, ops=ops)
        tg = d.pick([lambda: [d.below(5), d.below(3)],
                     lambda: [d.pick([0, 1, -1, NEVER, FOREVER, NEVER + 1, FOREVER - 1, 10**18]), d.pick([0, 1, UMAX, 2**31])],
                     lambda: [d.below(1000) * 1000, d.below(2)]])
        ops, named, nid = [], {}, 0
        while d.more(avg):
            k = d.weighted([(3 * grow, 0), (3 * grow, 1), (2, 2), (2, 3), (2, 4), (2, 5), (3, 6), (2, 7), (3, 8), (1, 9), (2, 10)])
            old = [o[2:4] if o[0] == 0 else o[1:3] for o in ops[-20:] if o[0] in (0, 1, 2)]
            t = d.pick(old) if old and d.below(3) else tg()
            if k == 0 and nid < 500:
                ops.append([0, nid] + tg() + [d.below(3)])
                nid += 1
            elif k in (1, 2):
                ops.append([k] + (tg() if k == 1 else t))
            elif k in (3, 9, 10):
                ops.append([k] + (t if k != 9 or d.below(6) else [FOREVER, UMAX]))
            elif k == 4:
                ops.append([4] + t + [d.below(3)])
            elif k in (5, 6, 7):
                ops.append([k])
            elif k == 8 and nid:
                ops.append([8, d.below(nid)])
        return dict(k="T", custom=d.below(4), init=d.pick([1, 0, 2, 10]), ops=ops)

    def prepare(self, case):
        """Which of the generated operations are legal depends on which of several minimal elements was popped. Elements that can have
        been popped are never named again, so legality is decided by a model that removes all of them from its 'known' set."""
        if case["k"] == "P":
            return case["ops"]
        out, known = [], {}
        for o in case["ops"]:
            if case["custom"] % 2 and o[0] in (1, 2):
                continue      # customised queues hold elements with a payload only
            if o[0] == 0:
                known[o[1]] = tuple(o[2:4])
            elif o[0] in (6, 7):
                if known:
                    m = min(known.values())
                    for e in [e for e in known if known[e] == m]:
                        del known[e]
            elif o[0] == 9:
                for e in [e for e in known if known[e] <= tuple(o[1:3])]:
                    del known[e]
            elif o[0] == 10:
                for e in [e for e in known if known[e] == tuple(o[1:3])]:
                    del known[e]
            elif o[0] == 8:
                if o[1] not in known:
                    continue
                del known[o[1]]
            out.append(o)
        return out

    def line(self, case):
        ops = [x for o in self.prepare(case) for x in o]
        head = case["init"] if case["k"] == "P" else [case["custom"], case["init"]]
        return case["k"] + " " + " ".join(map(str, head + ops))

    def judge(self, case, w, st):
        return (self.judge_p if case["k"] == "P" else self.judge_t)(case, w, st)

    def judge_p(self, case, w, st):
        q = [{}, {}]
        big = odd = 0
        for n, o in enumerate(case["ops"]):
            what = "operation %d %s" % (n, o)
            st["ops"] = st.get("ops", 0) + 1
            k = o[0]
            if k == 6:
                w.expect(0, what)
                q[o[1]].update(q[1 - o[1]])
                q[1 - o[1]].clear()
            else:
                m = q[o[1]]
                if k == 0:
                    w.expect(0, "insert: " + what)
                    m[o[2]] = o[3]
                elif k in (1, 2):
                    g = w.int()
                    if not m:
                        if g != -1:
                            raise Mismatch("empty: %s returned element %d of an empty queue" % (what, g))
                    elif g not in m:
                        raise Mismatch("contents: %s returned element %d, which is not in the queue" % (what, g))
                    elif m[g] != min(m.values()):
                        raise Mismatch("order: %s returned priority %d, the minimum is %d" % (what, m[g], min(m.values())))
                    elif k == 1:
                        del m[g]
                elif k == 3:
                    w.expect(0, "remove: " + what)
                    del m[o[2]]
                    odd += 1
                elif k == 4:
                    g = w.int()
                    odd += 1
                    if o[2] in m.values():
                        if m.get(g) != o[2]:
                            raise Mismatch("find: %s returned %d, elements with that priority exist" % (what, g))
                    elif g != -1:
                        raise Mismatch("find: %s returned %d, no such element" % (what, g))
                elif k == 5:
                    odd += 1
                    w.expect(o[2] if o[2] in m else -1, "find: " + what)
            w.expect(len(q[0]), "size: after " + what)
            w.expect(len(q[1]), "size: after " + what)
            w.expect(1, "heap order: after " + what)
            big = max(big, len(q[0]), len(q[1]))
        for m in q:
            last = -1
            for _ in range(len(m)):
                g = w.int()
                if g not in m:
                    raise Mismatch("contents: drained element %d, which is not in the queue" % g)
                p = m.pop(g)
                if p < last:
                    raise Mismatch("order: drained %d after %d" % (p, last))
                last = p
            w.expect(-1, "contents: drained queue")
        st["reaction_queue"] = 1
        return len(case["ops"]) >= 12 and odd and big >= 4

    def judge_t(self, case, w, st):
        q = []          # (tag, id or -2, payload)
        big = odd = 0
        ops = self.prepare(case)
        for n, o in enumerate(ops):
            what = "operation %d %s" % (n, o)
            st["ops"] = st.get("ops", 0) + 1
            k = o[0]

            def answer():
                return w.int(), (w.int(), w.int())

            def take(g, t, where, cand):
                for e in cand:
                    if e[1] == g and e[0] == t:
                        return e
                raise Mismatch("%s: %s returned element %d with tag %s" % (where, what, g, t))
            if k == 0:
                w.expect(0, "insert: " + what)
                q.append((tuple(o[2:4]), o[1], o[4]))
            elif k == 1:
                w.expect(0, "insert: " + what)
                q.append((tuple(o[1:3]), -2, None))
            elif k == 2:
                has = any(e[0] == tuple(o[1:3]) for e in q)
                w.expect(1 if has else 0, "insert if no match: " + what)
                if not has:
                    q.append((tuple(o[1:3]), -2, None))
            elif k in (3, 4):
                g, t = answer()
                odd += 1
                key = tuple(o[1:3])
                # the default comparison matches any element with the tag, the customised one compares payloads
                cand = [e for e in q if e[0] == key]
                if k == 4 and case["custom"] % 2:
                    cand = [e for e in cand if e[2] == o[3]]
                if cand:
                    take(g, t, "find", cand)
                elif g != -1:
                    raise Mismatch("find: %s returned element %d with tag %s, none exists" % (what, g, t))
            elif k in (5, 6):
                g, t = answer()
                if not q:
                    if g != -1:
                        raise Mismatch("empty: %s returned element %d" % (what, g))
                else:
                    m = min(e[0] for e in q)
                    e = take(g, t, "order", [e for e in q if e[0] == m])
                    if k == 6:
                        q.remove(e)
                if k == 5:
                    t2 = (w.int(), w.int())
                    want = min(e[0] for e in q) if q else (FOREVER, UMAX)
                    if t2 != want:
                        raise Mismatch("order: peek tag returned %s, expected %s" % (t2, want))
            elif k == 7:
                g, t = answer()
                m = min(e[0] for e in q) if q else (FOREVER, UMAX)
                if t != m:
                    raise Mismatch("order: %s returned %s, expected %s" % (what, t, m))
                if q:
                    q.remove(take(g, t, "order", [e for e in q if e[0] == m]))
            elif k == 8:
                w.expect(0, what)
                odd += 1
                e = [e for e in q if e[1] == o[1]]
                if not e:
                    return False
                q.remove(e[0])
            elif k == 9:
                w.expect(0, what)
                odd += 1
                q = [e for e in q if e[0] > tuple(o[1:3])]
            elif k == 10:
                g = w.int()
                odd += 1
                cand = [e for e in q if e[0] == tuple(o[1:3])]
                if not cand:
                    if g != -1:
                        raise Mismatch("find: %s returned %d" % (what, g))
                else:
                    c2 = [e for e in cand if e[1] == g]
                    if not c2:
                        raise Mismatch("find: %s returned %d" % (what, g))
                    q.remove(c2[0])
            w.expect(len(q), "size: after " + what)
            w.expect(1, "heap order: after " + what)
            big = max(big, len(q))
        if case["custom"] < 2:
            last = (NEVER, -1)
            for _ in range(len(q)):
                g, t = w.int(), (w.int(), w.int())
                c = [e for e in q if e[0] == t and e[1] == g]
                if not c:
                    raise Mismatch("contents: drained element %d with tag %s, which is not in the queue" % (g, t))
                q.remove(c[0])
                if t < last:
                    raise Mismatch("order: drained %s after %s" % (t, last))
                last = t
        st["tag_queue"] = 1
        return len(ops) >= 12 and odd and big >= 4


if __name__ == "__main__":
    pbt.main(C())
