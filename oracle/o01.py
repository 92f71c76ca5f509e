from oracle.lib import *
from oracle import lib


def mk(rank, kind):
    def f(rng):
        from decomon.core import BoxDomain

        dom = Dom(rng, "box", n=int(rng.integers(1, 5)), batch=int(rng.integers(1, 4)))
        out = tuple(int(rng.integers(1, 4)) for _ in range(rank))
        w, b = rnd(rng, dom.batch, dom.n, *out), rnd(rng, dom.batch, *out)
        mx, mn = dom_extrema(dom, w, b)
        d = BoxDomain()
        u, l = nn(d.get_upper(tt(dom.x), tt(w), tt(b))), nn(d.get_lower(tt(dom.x), tt(w), tt(b)))
        data = dict(x=dom.x, w=w, b=b)
        same_shape(u, mx.shape, "upper", **data)
        same_shape(l, mn.shape, "lower", **data)
        close(u, mx, "box upper bound is the exact maximum", **data)
        close(l, mn, "box lower bound is the exact minimum", **data)

    return f


for r in (1, 2, 3):
    lib.case(f"box exact extrema, rank {r}")(mk(r, "box"))


@lib.case("box identity representation")
def ident(rng):
    from decomon.core import BoxDomain

    dom = Dom(rng, "box", n=3)
    d = BoxDomain()
    w = b = np.ones((2, 3))
    close(nn(d.get_upper(tt(dom.x), tt(w), tt(b))), dom.hi, "identity upper", x=dom.x)
    close(nn(d.get_lower(tt(dom.x), tt(w), tt(b))), dom.lo, "identity lower", x=dom.x)
