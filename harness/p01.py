"""P01: a measurement never modifies anything the caller passed in."""
from vlib import main
import session


def check(c):
    session.run_check(c, "P01")
    c.assumptions += ["contents, keys, order and types of all caller objects are compared bit by bit"]


main(check, "P01")
