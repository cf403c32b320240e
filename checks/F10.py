"""F10: what is encoded for the network decodes to the same value; RTI addresses are split into exactly their parts."""
import struct
from vlib import build, pbt, proc, unitcheck
from vlib.unitcheck import Mismatch

TECH = "value"
FMT = {"8": ("<q", 64, 1), "4": ("<i", 32, 1), "u": ("<I", 32, 0), "2": ("<H", 16, 0)}
LOW = "abcdefghijklmnopqrstuvwxyz"
HOSTC = LOW + "0123456789"


def hexs(b):
    return "x" + b.hex()


class C(unitcheck.UnitCheck):
    id = "F10"
    rule = ("a batch of at least 6 encodings, decodings and headers with at least one value that takes more than one byte, or of addresses with at least one that is malformed or has a part close to "
            "its length limit; all buffers have exact size under AddressSanitizer")
    quick = dict(n=10**9, seconds=40)
    thorough = dict(n=10**9, seconds=200)

    def setup(self, tier):
        self.exe = [build.codec(), build.codec(True)]

    def worker_setup(self):
        self.srv = [proc.LineServer([e]) for e in self.exe]

    def worker_done(self):
        for s in getattr(self, "srv", []):
            s.close()

    def value(self, d, t):
        _, bits, signed = FMT[t]
        k = d.below(6)
        if k == 0:
            v = d.pick([0, 1, 2**bits - 1, 2**(bits - 1), 2**(bits - 1) - 1])
        elif k == 1:
            v = 1 << d.below(bits)
        elif k == 2:
            v = (1 << d.below(bits)) - 1
        elif k == 3:
            v = sum((d.pick([0, 255, 128, 127, 1, 254]) << (8 * i)) for i in range(bits // 8))
        elif k == 4:
            v = d.below(1000)
        else:
            v = sum(d.below(256) << (8 * i) for i in range(bits // 8))
        return v - (1 << bits) if signed and v >> (bits - 1) else v

    def label(self, d, n):
        s = d.pick(HOSTC)
        while len(s) < n:
            s += d.pick(HOSTC + ("-" if s[-1] != "-" and len(s) < n - 1 else ""))
        return s

    def host(self, d):
        k = d.below(5)
        if k == 0:
            return ".".join(str(d.pick([d.below(256), 0, 255, 9, 10, 99, 100, 199, 200, 249])) for _ in range(4))
        if k == 1:
            return self.label(d, d.size(1, 30))
        if k == 2:      # close to the longest possible
            n = 255 - d.pick([0, 0, 1, 2, 5])
            s = ""
            while len(s) < n - 40:
                s += self.label(d, d.int(5, 20)) + "."
            return s + "".join(d.pick(LOW) for _ in range(n - len(s)))
        if k == 3:
            return self.label(d, d.pick([255, 254, 200]))
        return "".join(self.label(d, d.size(1, 10)) + "." for _ in range(d.int(1, 4))) + "".join(d.pick(LOW) for _ in range(d.int(2, 6)))

    def address(self, d):
        """(text, (host, port, user) or None when malformed)."""
        host = self.host(d)
        user = d.pick([None, d.pick(LOW + "_") + "".join(d.pick(HOSTC + "_-") for _ in range(d.pick([0, 3, 31, 30, 10])))])
        port = d.pick([None, d.below(65536), 0, 65535, 15045, 9, 10000])
        if d.chance(1, 3):
            junk = d.pick([" ", "/", "*", "!", "@", ":", "\t", "#", "\x80", "[", ",", "$"])
            bad = d.pick([
                host + ":" + str(d.pick([65536, 99999, 65537, 70000])), host + ":" + str(d.int(100000, 10**12)), host + ":", host + ":" + d.pick(["x", "-1", "1x", "+5", "0x10", " 80", "8 0"]),
                "@" + host, host + ":80:80", host + ":80" + junk, host + junk if junk != ":" else host + "::", junk + host, (user or "u") + "@", (user or "u") + "@:80", ":80", "", "@", ":",
                "a@b@" + host, "".join(d.pick(HOSTC) for _ in range(d.pick([256, 257, 300, 5000]))), "u" * d.pick([33, 40, 254, 255, 256, 257, 2000]) + "@" + host,
                d.pick("0123456789-") + "u@" + host, "Abc@" + host, "a" + d.pick("ABCXYZ") + "@" + host, host + ":" + "0" * d.pick([6, 10, 300])])
            return bad, None
        return (user + "@" if user is not None else "") + host + (":%d" % port if port is not None else ""), (host, -1 if port is None else port, user)

    def gen(self, d, i):
        kind = (i // 8) % 4
        if kind == 3:
            return dict(be=1, ops=[["s", t, self.value(d, t)] for t in (d.pick("84u2") for _ in range(d.size(6, 30)))])
        if kind == 1:       # (compiling the regular expressions takes about 20 ms)
            return dict(be=0, ops=[["a", *self.address(d)] for _ in range(d.int(1, 3))])
        ops = []
        for _ in range(d.size(6, 30)):
            k = d.below(6)
            t = d.pick("84u2")
            if k == 0:
                ops.append(["e", t, self.value(d, t)])
            elif k == 1:
                ops.append(["x", t, self.value(d, t)])
            elif k == 2:
                ops.append(["t", self.value(d, "8"), self.value(d, "u")])
            elif k == 3:
                ops.append(["h", self.value(d, "2"), self.value(d, "2"), self.value(d, "u") & 0x7fffffff])
            elif k == 4:
                ops.append(["H", self.value(d, "2"), self.value(d, "2"), self.value(d, "u") & 0x7fffffff, self.value(d, "8"), self.value(d, "u")])
            else:
                ops.append(["s", t, self.value(d, t)])
        return dict(be=0, ops=ops)

    def line(self, case):
        out = []
        for o in case["ops"]:
            if o[0] in "es":
                out.append("%s%s%d" % tuple(o))
            elif o[0] == "x":
                out.append("x%s %s" % (o[1], hexs(struct.pack(FMT[o[1]][0], o[2]))))
            elif o[0] == "t":
                out.append("t%d %d" % (o[1], o[2]))
            elif o[0] == "h":
                out.append("h " + hexs(struct.pack("<HHI", *o[1:])))
            elif o[0] == "H":
                out.append("H " + hexs(struct.pack("<HHIqI", *o[1:])))
            else:
                out.append("a " + hexs(o[1].encode("latin-1")))
        return " ".join(out)

    def run(self, case):
        ans, bad = self.srv[case["be"]].ask(self.line(case))
        if bad:
            return pbt.Result(bad)
        st = {}
        w = unitcheck.Words(ans.rpartition("#")[0])
        try:
            nt = self.judge(case, w, st)
        except Mismatch as e:
            return pbt.Result(str(e))
        return pbt.Result(None, nt, stats=st)

    def judge(self, case, w, st):
        edges = 0
        swaps = []
        for o in case["ops"]:
            if o[0] == "e":
                g = w.take()
                e = hexs(struct.pack(FMT[o[1]][0], o[2]))
                if g != e:
                    raise Mismatch("encode: %d is encoded as %s, expected %s" % (o[2], g, e))
                edges += o[2] < 0 or o[2] > 1000
            elif o[0] == "x":
                w.expect(o[2], "decode: %s" % hexs(struct.pack(FMT[o[1]][0], o[2])))
                edges += o[2] < 0 or o[2] > 1000
            elif o[0] == "s":
                g = w.int()
                fmt = FMT[o[1]][0]
                swaps.append((o, g, struct.unpack(">" + fmt[1], struct.pack(fmt, o[2]))[0]))
                if not case["be"] and g != o[2]:
                    raise Mismatch("swap: %d becomes %d on a little-endian host" % (o[2], g))
            elif o[0] == "t":
                g = w.take()
                e = hexs(struct.pack("<qI", o[1], o[2]))
                if g != e:
                    raise Mismatch("tag: %s is encoded as %s, expected %s" % (o[1:], g, e))
                w.expect(o[1], "tag: the time of %s" % o[1:])
                w.expect(o[2], "tag: the microstep of %s" % o[1:])
            elif o[0] in "hH":
                for k, v in enumerate((o[1:] + [0, 0])[:5]):
                    w.expect(v, "header: field %d of %s" % (k, o[1:]))
                edges += 1
            else:
                has, r = w.int(), w.int()
                h, p, u = w.take(), w.int(), w.take()
                if o[2] is None:
                    st["malformed addresses"] = st.get("malformed addresses", 0) + 1
                    edges += 1
                    if r == 0:
                        raise Mismatch("address: the malformed address %r is accepted as host %s, port %d, user %s" % (o[1][:300], h, p, u))
                else:
                    st["addresses"] = st.get("addresses", 0) + 1
                    host, port, user = o[2]
                    edges += len(host) > 200 or user is not None and len(user) > 30
                    e = (hexs(host.encode()), port, "-" if user is None else hexs(user.encode()))
                    if r != 0 or (h, p, u) != e or not has:
                        raise Mismatch("address: %r gives result %d, host %s, port %d, user %s" % (o[1][:300], r, h, p, u))
        if case["be"] and any(g != o[2] for o, g, _ in swaps):   # nothing is said when the answer of the harness has no effect
            for o, g, e in swaps:
                if g != e:
                    raise Mismatch("swap: %d becomes %d on a big-endian host, expected %d" % (o[2], g, e))
            st["swaps as on a big-endian host"] = len(swaps)
            edges += 1
        return edges > 0 and (len(case["ops"]) >= 6 or case["ops"][0][0] == "a")


if __name__ == "__main__":
    pbt.main(C())
