"""A federation of scripted federates around a real RTI."""
import socket, struct, subprocess, sys, threading, time
NEVER = -2**63
NAMES = {2: "TIMESTAMP", 5: "MSG", 7: "TAG", 8: "PTAG", 10: "STOP?", 12: "STOP", 23: "ABSENT"}


def fail(m):
    print("FAIL:", m)
    RTI.kill()
    sys.exit(1)


class Fed:
    def __init__(self, i, up, down):
        self.i = i
        s = socket.create_connection(("127.0.0.1", PORT))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s = s
        s.settimeout(60)
        s.sendall(struct.pack("<BHB", 1, i, 3) + b"fed")
        if self.rd(1) != b"\xff":
            fail("rejected")
        s.sendall(struct.pack("<Bii", 24, len(up), len(down)) + b"".join(struct.pack("<Hq", u, d) for u, d in up) +
                  b"".join(struct.pack("<H", d) for d in down) + struct.pack("<BH", 254, 65535))

    def rd(self, n):
        b = b""
        while len(b) < n:
            c = self.s.recv(n - len(b))
            if not c:
                raise EOFError
            b += c
        return b

    def propose(self, t):
        self.s.sendall(struct.pack("<Bq", 2, t))

    def started(self):
        b = self.rd(9)
        if b[0] != 2:
            fail("federate %d gets %s before the start time" % (self.i, NAMES.get(b[0], b[0])))
        self.start = struct.unpack("<q", b[1:])[0]
        return self.start

    def get(self, timeout=20):
        """The next message from the RTI: (name, time, microstep, ...) or None when there is none in time."""
        self.s.settimeout(timeout)
        try:
            t = self.rd(1)[0]
        except socket.timeout:
            return None
        self.s.settimeout(60)
        if t in (7, 8, 12, 10):
            a, m = struct.unpack("<qI", self.rd(12))
            return (NAMES[t], a - self.start, m)
        if t == 5:
            p, f, n, a, m = struct.unpack("<HHiqI", self.rd(20))
            return ("MSG", a - self.start, m, p, self.rd(n))
        if t == 23:
            p, f, a, m = struct.unpack("<HHqI", self.rd(16))
            return ("ABSENT", a - self.start, m, p)
        fail("federate %d gets an unknown message %d" % (self.i, t))

    def expect(self, *what):
        g = self.get()
        if g != what:
            fail("federate %d gets %s instead of %s" % (self.i, g, what))

    def nothing(self, sec=1.0):
        g = self.get(sec)
        if g is not None:
            fail("federate %d gets %s instead of nothing" % (self.i, g))

    def tagged(self, k, t, m):
        self.s.sendall(struct.pack("<BqI", k, t + self.start, m))
        time.sleep(0.3)  # the RTI takes notice of this before what other federates send next

    def net(self, t, m=0): self.tagged(6, t, m)
    def ltc(self, t, m=0): self.tagged(9, t, m)
    def stop(self, t, m=0): self.tagged(10, t, m)
    def reply(self, t, m=0): self.tagged(11, t, m)

    def msg(self, dst, port, t, m, data):
        self.s.sendall(struct.pack("<BHHiqI", 5, port, dst, len(data), t + self.start, m) + data)
        time.sleep(0.3)

    def absent(self, dst, port, t, m=0):
        self.s.sendall(struct.pack("<BHHqI", 23, port, dst, t + self.start, m))
        time.sleep(0.3)

    def resign(self):
        self.tagged(4, 0, 0)
        self.s.close()
        time.sleep(0.5)


def federation(feds, proposals=None):
    """feds: a list of (upstream [(id, delay)], downstream [id])."""
    global RTI, PORT
    s = socket.socket(); s.bind(("127.0.0.1", 0)); PORT = s.getsockname()[1]; s.close()
    RTI = subprocess.Popen([sys.argv[1], "-n", str(len(feds)), "-i", "fed", "-c", "off", "-p", str(PORT)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for _ in range(200):
        try:
            F = [Fed(0, *feds[0])]
            break
        except OSError:
            time.sleep(0.1)
    F += [Fed(i, *feds[i]) for i in range(1, len(feds))]
    now = time.time_ns()
    for i, f in enumerate(F):
        f.propose(now + (proposals[i] if proposals else 0))
        time.sleep(0.2)
    st = [f.started() for f in F]
    if len(set(st)) != 1:
        fail("start times differ: %s" % st)
    F[0].proposed = [now + x for x in proposals] if proposals else [now] * len(F)
    return F


def passed():
    RTI.kill()
    print("passed")
    sys.exit(0)
