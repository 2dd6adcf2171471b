"""Graph construction"""
from ..ctx import rule
from ..lib import *

BLD = "builder::Builder"
OPQ = [r"^<Kid as", r"^<Kid>", r"^Kid::", r"PkgSpec::matches"]


def builder_value(a):
    """a builder with any configuration, but no index (its effect is C34's)"""
    fs = a.fields(BLD)
    return V(BLD, "Builder", tuple(fs), *[NONE if "BuildIndexCache" in ty or "dyn" in ty else field(sym(0), f) for f, ty in fs.items()])


def built(a):
    return a.run(a.method(BLD, "build_with_metadata"), [builder_value(a), sym(1), sym(2)], OPQ)
