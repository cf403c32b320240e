"""F01: a grant never allows a federate to go past a message that may still arrive."""
from vlib import pbt, rti

TECH = "rti"


class C(rti.RtiCheck):
    id = prop = "F01"
    feature = dict(stops=25, leaves=25, kinds=(0, 0, 1))


if __name__ == "__main__":
    pbt.main(C())
