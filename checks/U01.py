"""Wave files: what read_wave_file returns for files written here, well formed, of unsupported formats, cut short or mangled."""
import shutil, struct, tempfile
from vlib import build, pbt, proc, unitcheck
from vlib.unitcheck import Mismatch

TECH = "value"
JUNK = [b"JUNK", b"LIST", b"FLLR", b"fact", b"bext", b"id3 ", b"dat ", b"atad", b"Data"]


def wave(c):
    """The bytes of the file."""
    f = dict(riff=b"RIFF", wave=b"WAVE", fmt=b"fmt ", fsize=16, format=1, rate=44100, bits=16)
    for k, v in c["wrong"]:
        f[k] = v.encode("latin-1") if isinstance(v, str) else v
    ch = c["channels"]
    head = f["fmt"] + struct.pack("<IHHIIHH", f["fsize"], f["format"], ch, f["rate"], f["rate"] * ch * 2 & 0xffffffff, ch * 2 & 0xffff, f["bits"])
    body = f["wave"] + head
    for name, size, seed in c["junk"]:
        body += name.encode() + struct.pack("<I", size) + bytes((seed + i * 7) % 256 for i in range(size)) + b"\0" * (size % 2)
    if c["data"]:
        body += b"data" + struct.pack("<I", len(c["samples"]) * 2 + c["odd"]) + struct.pack("<%dh" % len(c["samples"]), *c["samples"]) + b"\x55" * c["odd"] + b"\0" * c["odd"]
        for name, size, seed in c["after"]:
            body += name.encode() + struct.pack("<I", size) + bytes((seed + i * 7) % 256 for i in range(size)) + b"\0" * (size % 2)
    b = f["riff"] + struct.pack("<I", len(body) & 0xffffffff) + body
    if c["cut"] is not None:
        b = b[:c["cut"]]
    b = bytearray(b)
    for p, v in c["mangle"]:
        if p < len(b):
            b[p] = v
    return bytes(b)


def model(b):
    """None, or (channels, length the file claims, samples in the file, whether half a sample follows); by the format of wave files that the reader documents."""
    if len(b) < 44 or b[:4] != b"RIFF" or b[8:16] != b"WAVEfmt " or struct.unpack_from("<IH", b, 16) != (16, 1):
        return None
    ch, rate, _, _, bits = struct.unpack_from("<HIIHH", b, 22)
    if rate != 44100 or bits != 16:
        return None
    p = 36
    while True:
        if len(b) < p + 8:
            return None
        size = struct.unpack_from("<I", b, p + 4)[0]
        if b[p:p + 4] == b"data":
            n = min(size // 2, (len(b) - p - 8) // 2)
            part = int(n < size // 2 and (len(b) - p - 8) % 2)
            return ch, size // 2, list(struct.unpack_from("<%dh" % n, b, p + 8)), part
        p += 8 + size + size % 2


class C(unitcheck.UnitCheck):
    id = "U01"
    rule = "a supported file with samples and an intermediate chunk or more than one channel, or an unsupported, cut or mangled file"
    quick = dict(n=10**9, seconds=25)
    thorough = dict(n=10**9, seconds=120)
    exe_fn = staticmethod(build.wave)

    def worker_setup(self):
        self.dir = tempfile.mkdtemp(prefix="wave")
        self.srv = proc.LineServer([self.exe, self.dir])

    def worker_done(self):
        super().worker_done()
        if getattr(self, "dir", None):
            shutil.rmtree(self.dir, ignore_errors=True)

    def gen(self, d, i):
        ch = d.pick([1, 2, 1, 2, 3, 6])
        junk = lambda: [d.pick(JUNK).decode(), d.weighted([(4, d.below(64)), (2, d.below(6)), (1, d.below(5000))]), d.below(256)]
        frames = d.weighted([(6, d.below(40)), (1, 0), (1, d.below(2000))])
        amp = d.pick([32767, 100, 1])
        samples = [d.int(-amp - (amp == 32767), amp) for _ in range(frames * ch)]
        c = dict(where=d.weighted([(5, 0), (2, 1)]) if d.below(40) else 2, channels=ch, wrong=[],
                 junk=[junk() for _ in range(d.pick([0, 0, 1, 2, 3]))], data=True, samples=samples, odd=0, after=[junk() for _ in range(d.below(2))], cut=None, mangle=[])
        k = i // 8 % 4
        if k == 1:
            w = d.pick([("riff", d.pick(["RIFX", "riff", "\0\0\0\0"])), ("wave", d.pick(["AVI ", "WAVF", "wave"])), ("fmt", d.pick(["fmt\0", "JUNK", "FMT "])),
                        ("fsize", d.pick([18, 40, 15, 0, 2**32 - 1])), ("format", d.pick([3, 0, 6, 7, 0xfffe, 257])), ("rate", d.pick([48000, 22050, 8000, 44101, 0, 2**32 - 1])),
                        ("bits", d.pick([8, 24, 32, 0, 17]))])
            c["wrong"] = [list(w)]
        elif k == 2:
            n = len(wave(c))
            if d.below(6) == 0:
                c["data"] = False
            c["cut"] = d.pick([d.below(n + 1), d.below(50), max(0, n - 1 - d.below(12)), None])
            c["odd"] = d.below(2)
        elif k == 3:
            n = len(wave(c))
            for _ in range(d.int(1, 3)):
                p = d.pick([d.below(44), d.below(n), 16 + d.below(28), 40 + d.below(4)])
                c["mangle"].append([p, d.pick([255, 0, 1, d.below(256), 127, 128])])
        return c

    def line(self, c):
        return "%d %s" % (c["where"], wave(c).hex())

    def run(self, case):
        ans, bad = self.srv.ask(self.line(case))
        if bad:
            return pbt.Result(bad)
        b = wave(case)
        m = None if case["where"] == 2 else model(b)
        body, _, tail = ans.rpartition("#")
        st = {("supported" if m else "rejected"): 1, "kinds": 1}
        try:
            if m is None:
                if body.split() != ["N"]:
                    raise Mismatch("wave: a file that is missing, of an unsupported format or without data is read as %s" % body[:60])
            elif body.split() == ["N"]:
                # A file that is cut short, or claims more data than could be allocated, may be refused; a whole one may not.
                if m[1] == len(m[2]):
                    raise Mismatch("wave: a supported file is refused")
            else:
                g = [int(x) for x in body.split()]
                if g[1] != m[0]:
                    raise Mismatch("wave: %d channels, expected %d" % (g[1], m[0]))
                if g[0] != m[1] and not (len(m[2]) < m[1] and len(m[2]) <= g[0] < m[1]):
                    raise Mismatch("wave: length %d, expected %d" % (g[0], m[1]))
                s = g[4:]
                n = len(m[2])
                if s[:n] != m[2]:
                    j = next(j for j in range(n) if j >= len(s) or s[j] != m[2][j])
                    raise Mismatch("wave: sample %d of %d is %s, expected %d" % (j, n, s[j] if j < len(s) else "missing", m[2][j]))
                # (A sample of which one byte is there is unspecified.)
                if any(s[n + m[3]:]) or g[2]:
                    raise Mismatch("wave: samples beyond those of the file are not 0")
            bl, fd = [int(x) for x in tail.split()]
            if bl:
                raise Mismatch("leak: %d blocks" % bl)
            if fd:
                raise Mismatch("leak: %d open files" % fd)
        except Mismatch as e:
            return pbt.Result(str(e))
        nt = case["wrong"] or case["mangle"] or case["cut"] is not None or not case["data"] or (case["samples"] and (case["junk"] or case["channels"] > 1))
        return pbt.Result(None, bool(nt), stats=st)


if __name__ == "__main__":
    pbt.main(C())
