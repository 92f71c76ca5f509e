from oracle.lib import *
from oracle import lib


def mk(known, kind, rank):
    def f(rng):
        dom = Dom(rng, kind, n=int(rng.integers(1, 5)), batch=int(rng.integers(1, 3)))
        out = tuple(int(rng.integers(1, 4)) for _ in range(rank))
        w, b = rnd(rng, dom.batch, dom.n, *out), rnd(rng, dom.batch, *out)
        a = rng.random((dom.n,) + out)
        a = np.where(rng.random(a.shape) < 0.4, np.round(a), a)
        pts = dom.points(30)
        # a box cutting the ball around its mean centre
        up = np.max(dom.x, 0) + dom.eps * rng.random(dom.n)
        lo = np.min(dom.x, 0) - dom.eps * rng.random(dom.n)
        kw = {}
        if "upper" in known:
            kw["upper"] = up
            pts = np.minimum(pts, up)
        if "lower" in known:
            kw["lower"] = lo
            pts = np.maximum(pts, lo)
        d = dom.domain
        u = nn(d.get_upper(tt(dom.x), tt(w), tt(b), finetune_upper=tt(a), **kw))
        l = nn(d.get_lower(tt(dom.x), tt(w), tt(b), finetune_lower=tt(a), **kw))
        data = dict(centre=dom.x, eps=dom.eps, w=w, b=b, alpha=a, up=up, lo=lo)
        for p in pts:
            # clipping towards the centre keeps the point in the ball
            v = np.einsum("bn...,bn->b...", w, p) + b
            same_shape(u, v.shape, "upper", **data)
            leq(v, u, "finetuned upper bound", point=p, **data)
            leq(l, v, "finetuned lower bound", point=p, **data)

    return f


for kind in ("ball_2", "ball_1", "ball_inf"):
    for known in (("upper", "lower"), ("upper",), ("lower",)):
        for rank in (1, 2):
            lib.case(f"finetune {kind} {'+'.join(known)} rank {rank}")(mk(known, kind, rank))
