"""F07: other connections while a federation assembles and runs: each is rejected with a reason, and the federates join all the same."""
import re

from vlib import build, pbt, rti

TECH = "rti"
S = rti.S
MISMATCH, IN_USE, RANGE, UNEXPECTED, WRONG, HMAC, NOAUTH = 1, 2, 3, 4, 5, 6, 7
FEDID = b"fed"


def e16(x):
    return [x & 255, x >> 8 & 255]


def e32(x):
    return [x >> 8 * i & 255 for i in range(4)]


def e64(x):
    return [x >> 8 * i & 255 for i in range(8)]


def rej(c):
    return "00%02x" % c


def outcome(b, n, auth, shake, sync, exch, used):
    """What the RTI answers to the bytes b while the federation is assembling: a list of regular expressions on the answer, or None when the
    RTI needs more bytes (the peer must then close). used(k): may, must the id k be in use."""
    if auth and not shake:
        if len(b) < 11:
            return None
        if b[0] != 100:
            return [rej(UNEXPECTED)]
        r = "65.{80}"
        if len(b) < 44:
            return None
        return [r + rej(UNEXPECTED if b[11] != 102 else HMAC)]
    if len(b) < 4:
        return None
    if b[0] != 1:
        return [rej(WRONG if b[0] in (16, 18) else NOAUTH if b[0] == 100 else UNEXPECTED)]
    k, L = b[1] + 256 * b[2], b[3]
    if len(b) < 4 + L:
        return None
    if bytes(b[4:4 + L]) != FEDID:
        return [rej(MISMATCH)]
    if k >= n:
        return [rej(RANGE)]
    may, must = used(k)
    res = [rej(IN_USE)] if may else []
    if must:
        return res
    b = b[4 + L:]

    def more():
        if len(b) < 9:
            return None
        if b[0] != 24:
            return ["ff" + rej(UNEXPECTED)]
        up, down = [int.from_bytes(bytes(b[i:i + 4]), "little", signed=True) for i in (1, 5)]
        if not (0 <= up <= n and 0 <= down <= n):
            return ["ff" + rej(UNEXPECTED)]
        m = 9 + 10 * up + 2 * down
        if len(b) < m:
            return None
        ids = [b[9 + 10 * i] + 256 * b[10 + 10 * i] for i in range(up)] + [b[9 + 10 * up + 2 * i] + 256 * b[10 + 10 * up + 2 * i] for i in range(down)]
        if any(x >= n for x in ids):
            return ["ff" + rej(UNEXPECTED)]
        if len(b) < m + 3:
            return None
        if b[m] != 254:
            return ["ff" + rej(UNEXPECTED)]
        port = b[m + 1] + 256 * b[m + 2]
        if not sync or port == 65535:
            return "joined"
        c = b[m + 3:]
        pre = "ff13.{16}"
        for x in range(exch):
            if len(c) < 5:
                return None
            if c[0] != 20 or int.from_bytes(bytes(c[1:5]), "little", signed=True) != k:
                return [pre + rej(UNEXPECTED)]
            c = c[5:]
            pre += "15.{16}" + ("13.{16}" if x + 1 < exch else "")
        return "joined"
    r = more()
    if r is None or r == "joined":
        return r
    return res + r


class C(rti.RtiCheck):
    id = prop = "F07"
    rule = "at least three other connections that the RTI answered or that closed before they were answered, of at least two different kinds"
    variants = ["plain", "asan", "plain", "auth", "plain", "auth-asan"]

    def setup(self, tier):
        self.exe = {"plain": build.rti(), "asan": build.rti(asan=True), "auth": build.rti(auth=True), "auth-asan": build.rti(asan=True, auth=True)}

    def gen(self, d, i):
        p = rti.gen_fed(d, stops=10, leaves=0, nmax=5, sync=40, big=0)
        p["variant"] = self.variants[i % len(self.variants)]
        n = len(p["feds"])
        auth = "auth" in p["variant"]
        if auth and d.chance(5, 6):
            k = d.pick([0, 2, 4, len(p["args"])])
            p["args"] = p["args"][:k] + ["-a"] + p["args"][k:]
        else:
            auth = False
        p["auth"] = int(auth)
        if d.chance(1, 3):  # a federation that takes long to assemble
            p["feds"][d.below(n)]["connect_at"] = d.int(1, 25) * S
        if d.chance(1, 3):  # one that runs for long
            p["timeout"] = d.int(5, 40) * S
            p["adv"] = max(p["adv"], S)
            p["connectlong"] = 1
            for f in p["feds"]:
                f["fast"] = 0
                f["phys"] = 0
                f["physt"] = []
                f["loc"] = f["loc"][:3] + [x * S for x in range(1, 5)]
            for i in range(n):  # messages must not multiply for so long
                out = [c for c in p["conns"] if c["src"] == i]
                tot = sum(c["pm"] for c in out)
                for c in out:
                    c["pm"] = min(c["pm"], c["pm"] * 600 // max(tot, 1))
        p["sync"] = int("off" not in p["args"])
        for _ in range(d.int(1, 8)):
            p["peers"].append(self.peer(d, p, n, auth))
        return p

    def peer(self, d, p, n, auth):
        q = dict(at=d.weighted([(4, d.below(10**7)), (3, d.below(3 * S)), (2, d.below(30 * S))]), mode=0)
        fid = list(FEDID)
        k = d.below(n)
        hello = lambda i, f: [1] + e16(i) + [len(f)] + f
        kind = d.pick(["random", "first byte", "p2p", "nonce", "fid", "fid", "range", "id", "neighbours", "neighbours", "udp", "sync", "cut", "cut", "hmac"])
        shake = auth and kind != "hmac" and d.chance(3, 4)
        if shake:
            q["mode"] = 2
        if kind == "random":
            b = [d.below(256) for _ in range(d.int(0, 40))]
        elif kind == "first byte":
            b = [d.below(256)] + hello(k, fid)[1:]
        elif kind == "p2p":
            b = [d.pick([16, 17, 18])] + e16(k) + [3] + fid
        elif kind == "nonce":
            b = [100] + e16(k) + [d.below(256) for _ in range(8)]
        elif kind == "fid":
            f = d.pick([[], fid[:1], fid[:2], fid + [0], fid + list(b"x"), fid + fid, [ord("F")] + fid[1:], fid[:2] + [0], fid[:1] + [0] + fid[2:], [0], [0, 0, 0], [d.below(256) for _ in range(d.below(256))], fid + [120] * 252])
            b = hello(d.pick([k, k, n, 65535]), f)
        elif kind == "range":
            b = hello(d.pick([n, n + 1, 65535, 32768, 255, 256 + k]), fid)
        elif kind == "id":
            b = hello(k, fid) + [d.below(24)] + [0] * 20
        else:
            b = hello(k, fid)
            up, down = d.below(min(n, 3)), d.below(min(n, 3))
            nb = [24] + e32(up) + e32(down)
            for _ in range(up):
                nb += e16(d.below(n)) + e64(d.pick([-2**63, 0, 1000]))
            for _ in range(down):
                nb += e16(d.below(n))
            udp = [254] + e16(d.pick([0, 65535, 15045]) if kind != "sync" else 17000)
            if kind == "neighbours":
                c = d.below(4)
                if c == 0:
                    nb = [d.below(24)] + nb[1:]
                elif c == 1:
                    nb = [24] + e32(d.pick([n + 1, 100, -1, 2**31 - 1, -2**31, 65536, 1])) + e32(d.pick([0, 0, n + 1, -1, 2**31 - 1])) + [d.below(256) for _ in range(d.below(64))]
                else:
                    nb = [24] + e32(1) + e32(1) + e16(d.pick([n, 65535, 0])) + e64(0) + e16(d.pick([n, 65535, 300, n + 7]))
                b += nb + udp
            elif kind == "udp":
                b += nb + [d.below(254)] + udp[1:] + [d.below(256) for _ in range(20)]
            elif kind == "sync":
                b += nb + udp
                for _ in range(d.below(p["exch"] + 1)):
                    b += [20] + e32(k)
                b += d.pick([[21] + e32(k), [20] + e32(-1), [20] + e32(65536), [20] + e32(k + 1), [d.below(20)] + e32(k)])
            elif kind == "hmac":
                b = [100] + e16(k) + [d.below(256) for _ in range(8)] + [d.pick([102, 102, 102, 0, 103])] + [d.below(256) for _ in range(32)]
            else:
                b += nb + udp
        if kind in ("cut", "random", "sync", "neighbours") and d.chance(2, 3):
            b = b[:d.below(len(b) + 1)]
        if d.chance(1, 6):
            q["mode"] |= 1
        # a peer must not join for good, and must close when the RTI still expects something from it
        o = outcome(b, n, auth, shake, p["sync"], p["exch"], lambda k: (1, 0))
        while o == "joined":
            b = b[:-1]
            o = outcome(b, n, auth, shake, p["sync"], p["exch"], lambda k: (1, 0))
        if o is None:
            q["mode"] |= 1
        s = []
        left = b
        while left:
            m = len(left) if d.chance(2, 3) else d.int(1, len(left))
            s.append([d.weighted([(3, 0), (1, d.below(10**6)), (1, d.below(10**8))]), left[:m]])
            left = left[m:]
            if len(s) == 30:
                s[-1][1] = s[-1][1] + left
                left = []
        if not s:
            s = [[d.below(10**8), []]]
        q["s"] = s
        q["kind"] = kind
        return q

    def nontrivial(self, p, log, v):
        seen = {int(e[1]) for e in log.ev if e[0] == "p" and e[2] in ("answer", "closed")}
        return len(seen) >= 3 and len({p["peers"][i]["kind"] for i in seen}) >= 2

    def judge(self, p, log, v, fail):
        if fail:
            return fail[1]
        for k in ("F07", "F02", "F04", "F06"):
            if k in v.bad:
                return v.bad[k]
        n = len(p["feds"])
        acked, conn = {}, {}
        for i, e in enumerate(log.ev):
            if e[0] == "J" and e[2] == "ack":
                acked[int(e[1])] = i
        for i, e in enumerate(log.ev):
            if e[0] != "p":
                continue
            j = int(e[1])
            q = p["peers"][j]
            if e[2] == "connected":
                conn[j] = i
            elif e[2] in ("answer", "handshake"):
                late = [rej(MISMATCH)] if all(acked.get(k, 10**9) < i for k in range(n)) else []
                over = sum(1 for x in log.ev[:i] if x[0] == "V") == n
                if over:
                    continue  # nobody is left to answer
                if e[2] == "handshake":
                    if not late or int(e[3]) not in (-1, -2):
                        return "handshake: the RTI does not prove to connection %d (%s) that it knows the federation's identifier: %s" % (j, q["kind"], e[3])
                    continue
                b = [x for _, y in q["s"] for x in y]
                shake = bool(q["mode"] & 2)
                o = outcome(b, n, p["auth"], shake, p["sync"], p["exch"], lambda k: (acked.get(k, 10**9) < i, acked.get(k, 10**9) < conn[j]))
                got = "" if e[3] == "-" else str(e[3])
                v.st["answers"] += 1
                if int(e[4]) == 0:
                    return "open: the RTI has not closed the connection %d (%s), which must be rejected; answer so far %s" % (j, q["kind"], got)
                # another connection may hold the federate id of this one for a while
                if not any(re.fullmatch(x, got) for x in (o or []) + late) and not (got == rej(IN_USE) and self.contended(p, j)):
                    return "answer: the RTI answers %s to connection %d (%s, bytes %s), expected %s" % (got or "nothing", j, q["kind"], bytes(b[:48]).hex(), " or ".join((o or []) + late))
                v.st["answer " + got[-4:]] += 1
        return None

    def contended(self, p, j):
        return False  # the RTI completes or undoes one attempt to join before it looks at the next

    def show(self, p):
        r = super().show(p)
        r["peers"] = [[q["at"], q["mode"], q["kind"], bytes(x for _, y in q["s"] for x in y).hex()[:80]] for q in p["peers"]]
        return r


if __name__ == "__main__":
    pbt.main(C())
