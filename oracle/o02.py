from oracle.lib import *
from oracle import lib


def mk(rank, kind):
    def f(rng):
        dom = Dom(rng, kind, n=int(rng.integers(1, 5)), batch=int(rng.integers(1, 4)))
        out = tuple(int(rng.integers(1, 4)) for _ in range(rank))
        w, b = rnd(rng, dom.batch, dom.n, *out), rnd(rng, dom.batch, *out)
        mx, mn = dom_extrema(dom, w, b)
        d = dom.domain
        u, l = nn(d.get_upper(tt(dom.x), tt(w), tt(b))), nn(d.get_lower(tt(dom.x), tt(w), tt(b)))
        data = dict(centre=dom.x, eps=dom.eps, w=w, b=b)
        same_shape(u, mx.shape, "upper", **data)
        same_shape(l, mn.shape, "lower", **data)
        close(u, mx, "ball upper bound is the exact maximum", **data)
        close(l, mn, "ball lower bound is the exact minimum", **data)
        i = np.ones((dom.batch, dom.n))
        close(nn(d.get_upper(tt(dom.x), tt(i), tt(i))), dom.x + dom.eps, "identity upper", **data)
        close(nn(d.get_lower(tt(dom.x), tt(i), tt(i))), dom.x - dom.eps, "identity lower", **data)

    return f


for k in ("ball_inf", "ball_2", "ball_1"):
    for r in (1, 2, 3):
        lib.case(f"{k} exact extrema, rank {r}")(mk(r, k))
