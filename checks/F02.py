"""F02: the RTI always lets a well-behaved federation finish; departures block nobody and do not end the RTI."""
from vlib import pbt, rti

TECH = "rti"


class C(rti.RtiCheck):
    id = prop = "F02"
    feature = dict(stops=25, leaves=50, kinds=(0, 0, 1, 2, 3))
    rule = "at least ten grants, or a federate that leaves early"

    def nontrivial(self, p, log, v):
        return v.st["TAG"] + v.st["PTAG"] >= 10 or v.st["left"] > 0

    def judge(self, p, log, v, fail):
        if fail:
            if "failed to read message chunks" in log.err and any(k == 3 for k in v.left.values()):
                return "chunks: the RTI exits because a federate disconnected while a message larger than the buffer was being forwarded"
            if v.orphan and fail[0] in ("stuck", "deadlock", "livelock"):
                return "orphan: federate %d waits at PTAG %s for a port whose sender, federate %d, has left" % (v.orphan[0], v.orphan[2], v.orphan[1])
            if fail[1] == "crash: the RTI returned 1" and 1 in v.left.values():
                fail = None  # the RTI's exit status reports that a federate failed
            else:
                return fail[1]
        return v.bad.get("F02")

    def known(self, case, msg):
        return {"orphan": "F02-orphan", "chunks": "F02-chunks"}.get(msg.split(":")[0])


if __name__ == "__main__":
    pbt.main(C())
