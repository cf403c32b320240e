"""F08: bytes move over a socket exactly, in order and completely, or the failure is reported."""
import errno
from vlib import build, pbt, unitcheck
from vlib.unitcheck import Mismatch

TECH = "model"
SOFT = [errno.EAGAIN, errno.EINTR]
HARD = [errno.ECONNRESET, errno.EPIPE, errno.ETIMEDOUT, errno.EBADF, errno.ENOMEM, errno.EIO]
READ, WRITE, PEEK, READ_C, WRITE_C, READ_F, WRITE_F = range(7)
KIND = ["read_from_socket", "write_to_socket", "peek_from_socket", "read_from_socket_close_on_error", "write_to_socket_close_on_error", "read_from_socket_fail_on_error",
        "write_to_socket_fail_on_error"]


class C(unitcheck.UnitCheck):
    id = "F08"
    exe_fn = staticmethod(build.sock)
    rule = "a history in which some transfer takes at least three calls of the system, or in which one fails; the position in both streams, the bytes, the descriptor and what was closed are compared after every call"
    quick = dict(n=10**9, seconds=20)
    thorough = dict(n=10**9, seconds=120)

    def gen(self, d, i):
        ops = []
        fails = d.pick([0, 3, 12])
        while d.more(6):
            op, n = d.weighted([(4, READ), (4, WRITE), (2, PEEK), (3, READ_C), (3, WRITE_C), (2, READ_F), (2, WRITE_F)]), d.pick([0, 1, 2, 8, 9, 33, 1000, d.below(300), 5000])
            sc = []
            for _ in range(d.pick([0, 1, 3, 10, 40])):
                k = d.below(12)
                if k < 4 and op != PEEK:
                    sc.append(-d.pick(SOFT))
                elif k == 4 and op == PEEK:
                    sc.append(-errno.EAGAIN)
                elif k == 5 and fails and d.chance(1, fails):
                    sc.append(d.pick([0, -d.pick(HARD)]) if op in (READ, READ_C, READ_F, PEEK) else -d.pick(HARD))
                else:
                    sc.append(d.pick([1, 1, 2, 7, max(1, n - 1), n + 1, 1 + d.below(40)]))
            ops.append([op, d.below(4), n, d.pick([0, errno.EAGAIN, errno.EINTR, errno.EPIPE]), sc])
        return dict(ops=ops)

    def line(self, c):
        x = [len(c["ops"])]
        for op, w, n, e, sc in c["ops"]:
            x += [op, w, n, e, len(sc)] + sc
        return " ".join(map(str, x))

    def run(self, case):
        ans, bad = self.srv.ask(self.line(case))
        if bad:
            return pbt.Result(bad)
        st = {}
        try:
            nt = self.judge(case, unitcheck.Words(ans), st)
        except Mismatch as e:
            return pbt.Result(str(e))
        return pbt.Result(None, nt, stats=st)

    def judge(self, c, w, st):
        var, got, put = [0, 1, 2, 3], [0] * 4, [0] * 4
        nt = False
        for i, (op, f, n, e, sc) in enumerate(c["ops"]):
            what = "%s of %d bytes (operation %d)" % (KIND[op], n, i)
            sc = iter(sc)
            inward = op in (READ, READ_C, READ_F)
            done, calls, ret = 0, 0, 0
            if op == PEEK:
                k = next(sc, 1) if var[f] >= 0 else -1
                ret = 1 if k > 0 else 0 if k == -errno.EAGAIN else k if k == 0 else -1
            elif var[f] < 0:
                ret = -1
            else:
                while done < n:
                    k = next(sc, n)
                    calls += 1
                    if -k in SOFT:
                        continue
                    if k <= 0:
                        ret = -1 if k else 1
                        break
                    done += min(k, n - done)
                if inward:
                    got[f] += done
                else:
                    put[f] += done
            closing = op >= READ_C and ret != 0
            was = var[f]
            if op in (READ_C, WRITE_C) and ret:
                ret = -1
            if op in (READ_F, WRITE_F) and ret:
                ret = 1
            if closing:
                var[f] = -1
            nt |= calls >= 3 or ret < 0 or closing
            w.expect(ret, what)
            w.expect(var[f], what + ": the descriptor afterwards")
            w.expect(got[f], what + ": the bytes taken from the socket")
            w.expect(put[f], what + ": the bytes given to the socket")
            if w.int() and was < 0:
                raise Mismatch(what + ": a call of the system on a socket that is not open")
            if w.int():
                raise Mismatch(what + ": wrong bytes")
            if w.int() != (op in (READ_F, WRITE_F) and not ret):
                raise Mismatch(what + ": the mutex is %s afterwards" % ("free" if not ret else "still held"))
            w.int()
            ev = w.take().replace("-", "")
            if closing and was >= 0:
                if ev.count("x") != 1 or "x%d" % f not in ev or "s%d" % f not in ev or ev.index("s") > ev.index("x"):
                    raise Mismatch(what + ": it failed and the socket was not shut down and closed once (%s)" % ev)
            elif "x" in ev or "s" in ev:
                raise Mismatch(what + ": a socket was closed (%s)" % ev)
            if op in (READ_F, WRITE_F) and ("f" in ev) != bool(ret):
                raise Mismatch(what + ": the failure was %s" % ("not reported" if ret else "reported although there was none"))
            for b in "?XStbc":
                if b in ev:
                    raise Mismatch(what + ": %s" % {"b": "it can block", "t": "it takes the byte", "S": "shutdown of a closed socket"}.get(b, "use of a closed socket (%s)" % ev))
            st["calls"] = st.get("calls", 0) + 1
            st["failures"] = st.get("failures", 0) + int(closing or (op < 3 and ret < 0))
        if w.take() != "end":
            raise Mismatch("answer: too long")
        return nt


if __name__ == "__main__":
    pbt.main(C())
