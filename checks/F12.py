from vlib import fed, pbt

TECH = "fed"


class C(fed.FedCheck):
    id = "F12"
    rule = "a federation in which at least two messages between federates were received and processed"
    quick = dict(n=10**9, seconds=100)
    thorough = dict(n=10000000, seconds=840)


if __name__ == "__main__":
    pbt.main(C())
