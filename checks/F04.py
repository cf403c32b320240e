"""F04: one start time for all, the latest proposal plus the startup delay, once all have proposed."""
from vlib import pbt, rti

TECH = "rti"


class C(rti.RtiCheck):
    id = prop = "F04"
    feature = dict(stops=10, leaves=10, kinds=(0,), nmax=12, big=0, sync=25)
    rule = "at least three federates with different proposals"

    def nontrivial(self, p, log, v):
        return len(set(v.proposals.values())) >= 3


if __name__ == "__main__":
    pbt.main(C())
