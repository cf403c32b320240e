"""F05: a federated stop is a consensus on one tag that no federate has passed."""
from vlib import pbt, rti

TECH = "rti"


class C(rti.RtiCheck):
    id = prop = "F05"
    feature = dict(stops=95, leaves=35, kinds=(0, 0, 1, 2))
    rule = "at least one request to stop and one stop granted by the RTI"

    def nontrivial(self, p, log, v):
        return v.st["stop requests"] > 0 and v.st["granted stops"] > 0


if __name__ == "__main__":
    pbt.main(C())
