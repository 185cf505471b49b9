"""The checks, one for each property: which models are explored, which operations are carried out
by the real code, and which specification decides."""
from engine import behaviours, cps, tours, ToolError  # noqa: F401

HARNESSES = ["iri", "core", "names", "io", "cli"]
CHECKS = {}


def check(prop, *assumptions):
    def register(f):
        CHECKS[prop] = (f, list(assumptions))
        return f
    return register


def ops_of(edges):
    return [o for _, o, _ in edges]


import checks_iri  # noqa: E402,F401
import checks_core  # noqa: E402,F401
import checks_names  # noqa: E402,F401
import checks_io  # noqa: E402,F401
import checks_cli  # noqa: E402,F401
