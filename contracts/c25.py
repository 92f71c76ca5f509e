"""Point domains: when the domain of a sample is a single point, every bound is the value itself.

The scenes of the other properties are executed again with a domain reduced to the point x^: the input bounds are equal to y there, the
bounds of a weighted sum are the sum. The goals are that the bounds put out are not above (below) the value: they are equal to it, since
the other properties show that they are not below (above)."""
import os

from .lib import EXACT, case
from . import c04, c05, c06, c07, c08, c09, c10, c11, c13, c14, c15


def at_a_point(c):
    def r(ctx):
        EXACT.on = True
        try:
            return c["run"](ctx)
        finally:
            EXACT.on = False

    return r


def concerned(n):
    """all the cases but: difference of convex functions, inputs in their compact form, softplus (its lower affine bound is not tangent)"""
    return not (" dc" in n or "identity input" in n or (n.startswith("softplus") and not n.endswith("ibp")) or n.startswith(("get_input", "set_domain")) or "s-shape hull" in n)


def cases():
    out = []
    for m in (c04, c05, c06, c07, c08, c09, c10, c11, c13, c14, c15):
        if os.environ.get("ONLY", "c") not in m.__name__:
            continue
        for c in m.cases():
            if m is c13 and os.environ.get("VERIF_TIER") != "thorough" and ("rank 3" in c["name"] and "finetune" in c["name"] or "from keras" in c["name"] and "rank 2" not in c["name"]):
                continue
            if concerned(c["name"]):
                out.append(case(f"{m.__name__[-3:].upper()} {c['name']}", at_a_point(c), c["functions"]))
    return out
