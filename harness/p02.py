"""P02: the result of a request depends on that request only."""
from vlib import main
import session


def check(c):
    session.run_check(c, "P02")
    c.assumptions += ["responses compared to 1e-9 relative with those of a process that did nothing else",
                      "get_fref_bounds reuses the first average computed by the same analysis, as documented"]


main(check, "P02")
