"""F06: every message is forwarded intact, once, in order, to the right federate."""
from vlib import pbt, rti

TECH = "rti"


class C(rti.RtiCheck):
    id = prop = "F06"
    feature = dict(stops=15, leaves=30, kinds=(0, 0, 1, 2), big=2)
    rule = "at least five messages"

    def nontrivial(self, p, log, v):
        return v.st["messages"] >= 5


if __name__ == "__main__":
    pbt.main(C())
