from vlib import build, pbt, proc

TECH = "value"
NEVER, FOREVER = -2**63, 2**63 - 1
UNITS = dict(nsec=1, nsecs=1, usec=10**3, usecs=10**3, msec=10**6, msecs=10**6, sec=10**9, secs=10**9, minute=60 * 10**9, minutes=60 * 10**9,
             min=60 * 10**9, mins=60 * 10**9, second=10**9, seconds=10**9,
             hour=3600 * 10**9, hours=3600 * 10**9, day=86400 * 10**9, days=86400 * 10**9, week=604800 * 10**9, weeks=604800 * 10**9)


class C(pbt.Check):
    id = "C14"
    rule = ("default and actual argument vectors with at least two options altogether, or a malformed one; every argument and vector is allocated exactly "
            "under AddressSanitizer; a quarter of the cases contain random or truncated vectors, for which only a crash or an overread is a failure, and the "
            "settings are compared for the rest")
    quick = dict(n=10**9, seconds=25)
    thorough = dict(n=10**9, seconds=200)
    shrink_seconds = 20

    def setup(self, tier):
        self.exe = [build.args(False), build.args(True)]

    def worker_setup(self):
        self.srv = [proc.LineServer([e]) for e in self.exe]

    def worker_done(self):
        for s in getattr(self, "srv", []):
            s.close()

    def opt(self, d, fed, kind):
        """(arguments, effect or None when malformed)."""
        k = d.below(7 if fed else 4) if kind is None else kind
        bad = d.below(12) == 11
        if k == 0:
            n = d.pick(["-f", "--fast"])
            if bad:
                return [n], None
            v = d.pick(["true", "false", "true", "maybe", "TRUE", ""])
            return [n, v], ({"fast": int(v == "true")} if v in ("true", "false") else {})
        if k == 1:
            n = d.pick(["-k", "--keepalive"])
            if bad:
                return [n], None
            v = d.pick(["true", "false", "true", "yes"])
            return [n, v], ({"keep": int(v == "true")} if v in ("true", "false") else {})
        if k == 2:
            n = d.pick(["-o", "--timeout", "-timeout"])
            if bad:
                return d.pick([[n], [n, "5"], [n, "x", "sec"], [n, "5", "parsec"], [n, "5", ""], [n, "", "sec"], [n, "5", "m"], [n, "7", "ksec"], [n, "sec", "5"]]), None
            u = d.pick(sorted(UNITS))
            t = d.pick([d.below(100), 0, d.below(10**6), d.below(10**13), FOREVER // UNITS[u], FOREVER // UNITS[u] + 1, FOREVER, d.int(0, FOREVER)])
            return [n, str(t), u], {"timeout": min(FOREVER, t * UNITS[u])}
        if k == 3:
            n = d.pick(["-w", "--workers"])
            if bad:
                return [n], None
            t = d.pick([d.int(1, 64), 1, 0, -3, "many", d.int(1, 2**31 - 1)])
            return [n, str(t)], {"workers": t if isinstance(t, int) and t > 0 else 1}
        if k == 4:
            n = d.pick(["-i", "--id"])
            if bad:
                return [n], None
            v = "".join(d.pick("abcXYZ019-_. ") for _ in range(d.size(1, 40)))
            return [n, v], {"id": v}
        n = d.pick(["-r", "--rti"])
        host = d.pick(["localhost", "10.0.0.%d" % d.below(256), "rti.example.com", "a-b.c-d.org", "h%d" % d.below(1000), "%d.%d.%d.%d" % tuple(d.below(256) for _ in range(4))])
        user = d.pick([None, "bob", "a_b-c%d" % d.below(99), "_x", "u" * d.int(1, 32)])
        port = d.pick([None, d.int(0, 65535), 65535, 0, 15045])
        if bad:
            return d.pick([[n], [n, ""], [n, host + ":%d" % d.int(65536, 99999)], [n, host + ":%d" % d.int(100000, 10**9)], [n, host + ":x"], [n, host + ":"],
                           [n, "9bob@" + host], [n, "Bob@" + host], [n, "@" + host], [n, "a b@" + host], [n, host + ":80:80"], [n, "u" * 40 + "@" + host],
                           [n, "bob@"], [n, "h" * 300], [n, "_"], [n, host + " "]]), None
        e = {"host": host}
        if port is not None:
            e["port"] = port
        if user is not None:
            e["user"] = user
        return [n, (user + "@" if user is not None else "") + host + (":%d" % port if port is not None else "")], e

    def gen(self, d, i):
        fed = d.below(2)
        if d.below(4) == 3:   # random vectors
            words = ["-f", "--fast", "-o", "--timeout", "-k", "-w", "-i", "-r", "true", "false", "5", "sec", "--ros-args", "", "-", "--", "h:1", "u@h", "\x01\xff", "-1",
                     "9" * 30, "x" * 500, "a@" * 60, ":" * 9, "--rti", "--id"]
            vecs = [["prog"] + [d.pick(words) for _ in range(d.size(0, 6))] for _ in range(d.int(1, 2))]
            return dict(fed=fed, vecs=vecs, random=1)
        vecs, eff = [], []
        for _ in range(d.int(1, 2)):
            v = ["prog"]
            while d.more(3):
                if d.below(20) == 19:
                    if d.below(2):
                        v.append("--ros-args")
                        eff.append({})
                    else:
                        v.append(d.pick(["--quick", "-x", "true", "5", "-", "", "--fas", "-ff", "--timeouts"] + ([] if fed else ["--rti"])))
                        eff.append(None)
                    if eff[-1] is None:
                        break
                    continue
                a, e = self.opt(d, fed, None)
                v += a
                eff.append(e)
                if e is None:
                    break
            vecs.append(v)
            if eff and eff[-1] is None:
                break
        return dict(fed=fed, vecs=vecs, eff=eff, random=0)

    def line(self, case):
        return " ".join("%d" % len(v) + "".join(" x" + a.encode("latin-1").hex() for a in v) for v in case["vecs"])

    def run(self, case):
        ans, bad = self.srv[case["fed"]].ask(self.line(case))
        if bad:
            return pbt.Result(bad)
        if case["random"]:
            return pbt.Result(None, any(len(v) > 2 for v in case["vecs"]), stats=dict(random=1))
        w = ans.split(" ", 5)
        ret = int(w[0])
        fail = any(e is None for e in case["eff"])
        if ret != (0 if fail else 1):
            return pbt.Result("result: %s gives %d, expected %d" % (case["vecs"], ret, not fail))
        s = dict(fast=0, timeout=-1, keep=0, workers=4242, id="unset", host="unset", port=-1, user="unset")
        for e in case["eff"]:
            if e is None:
                return pbt.Result(None, True, stats=dict(malformed=1))   # the settings after a failure are not specified
            s.update(e)
        got = [int(x) for x in w[1:5]]
        if got != [s["fast"], s["timeout"], s["keep"], s["workers"]]:
            return pbt.Result("settings: %s gives fast, timeout, keepalive, workers = %s, expected %s" % (
                case["vecs"], got, [s["fast"], s["timeout"], s["keep"], s["workers"]]))
        if case["fed"]:
            g = w[5].split("|")
            if g != [s["id"], s["host"], str(s["port"]), s["user"]]:
                return pbt.Result("settings: %s gives federation, host, port, user = %s, expected %s" % (case["vecs"], g, [s["id"], s["host"], s["port"], s["user"]]))
        return pbt.Result(None, len(case["eff"]) >= 2, stats=dict(wellformed=1))


if __name__ == "__main__":
    pbt.main(C())
