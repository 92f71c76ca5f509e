"""Composition of bounds on the real keras: chaining affine bounds, closing them on the domain, changing the kind of bounds, and the
relaxation of the model input."""
from oracle.lib import *

CASES.clear()
i = lambda rng, a, b: int(rng.integers(a, b + 1))
MODES = ("hybrid", "ibp", "affine")


def af(w, b, y):
    return (w * y if w.ndim == 2 else np.einsum("bi,bio->bo", y, w)) + b


def forms(rng, B, n, o, diag):
    """four tensors; gap so that the lower form is not always above the upper one"""
    r = []
    for d in diag:
        r += [rnd(rng, B, n) if d else rnd(rng, B, n, o), rnd(rng, B, o)]
    return r


def between(outs, y, up, lo, what, data):
    outs = [nn(t) for t in outs]
    if len(outs) != 4:
        raise Violation(f"{what}: {len(outs)} tensors", **data)
    n, o = y.shape[1], up.shape[1]
    for t, s in zip(outs, [(len(y), n, o), (len(y), o)] * 2):
        same_shape(t, s, what, **data)
    leq(up, af(outs[0], outs[1], y), f"{what}: upper form below the outer upper form", 1e-8, **data)
    leq(af(outs[2], outs[3], y), lo, f"{what}: lower form above the outer lower form", 1e-8, **data)


def merge(layer):
    def run(rng):
        import decomon.models.crown as MC

        B, n, h, o = (i(rng, 1, 3) for _ in range(4))
        da, db = rng.random(2) < 0.3, rng.random(2) < 0.3
        if da.any():
            n = h
        if db.any():
            o = h
        A, C = forms(rng, B, n, h, da), forms(rng, B, h, o, db)
        if rng.random() < 0.3 and A[0].shape == A[2].shape:
            A[2:] = [A[0], A[1] - abs(A[3])]
        f = MC.merge_with_previous if not layer else MC.MergeWithPrevious(*((A[0].shape, C[0].shape) if rng.random() < 0.5 and not da.any() and not db.any() else ()))
        outs = f([tt(t) for t in A + C])
        for _ in range(6):
            y = rnd(rng, B, n)
            u, l = af(*A[:2], y), af(*A[2:], y)
            u = np.maximum(u, l)
            t = np.round(rng.random((B, h))) if rng.random() < 0.5 else rng.random((B, h))
            z = l + t * (u - l)
            # the inner forms only enclose where the lower one is below the upper one
            ok = (af(*A[:2], y) >= l).all(1)
            if not ok.any():
                continue
            up, lo = af(*C[:2], z), af(*C[2:], z)
            a = [nn(t_) for t_ in outs]
            v, w = af(*a[:2], y), af(*a[2:], y)
            up, lo = np.where(ok[:, None], up, v), np.where(ok[:, None], lo, w)
            between(outs, y, up, lo, "chaining", dict(inner=A, outer=C, y=y, h=z))

    return run


def fuse(mode):
    def run(rng):
        import decomon.models.crown as MC

        dom = Dom(rng, ("box", "ball_2")[i(rng, 0, 1)], n=i(rng, 1, 3), batch=i(rng, 1, 2))
        h = i(rng, 1, 3)
        r = Relax(rng, dom, (h,), mode)
        db = rng.random(2) < 0.3
        o = h if db.any() else i(rng, 1, 3)
        C = forms(rng, dom.batch, h, o, db)
        outs = MC.Fuse(mode)(r.inputs() + [tt(t) for t in C])
        for p, y in r.pts:
            if np.isnan(y).any():
                continue
            up, lo = af(*C[:2], y), af(*C[2:], y)
            between(outs, y if mode == "ibp" else p, up, lo, "closing a chain", dict(r.data(), outer=C, point=p, y=y)) if mode != "ibp" or not db.any() else None

    return run


def close_(mode):
    def run(rng):
        import decomon.models.crown as MC

        kind = KINDS[i(rng, 0, 3)]
        dom = Dom(rng, kind, n=i(rng, 1, 3), batch=i(rng, 1, 2))
        o = i(rng, 1, 3)
        F = forms(rng, dom.batch, dom.n, o, (False, False))
        pts = dom.points(8)
        if mode == "ibp":
            lo = dom.lo if kind == "box" else dom.c - dom.eps
            hi = dom.hi if kind == "box" else dom.c + dom.eps
            ins = [tt(hi), tt(lo)]
        else:
            r = Relax(rng, dom, (dom.n,), mode)
            ins = r.inputs()
        outs = MC.Convert2BackwardMode(mode, dom.domain)(ins + [tt(t) for t in F])
        vals = []
        for p in pts:
            u, l = af(*F[:2], p), af(*F[2:], p)
            t = rng.random(u.shape)
            vals.append((p, np.where(u >= l, l + np.round(t) * (u - l), np.nan)))
        check_out(outs, mode, vals, lambda y: y, "bounds of the kind asked for", 1e-8, dict(x=dom.x, kind=kind, forms=F))

    return run


def convert(mf, mt):
    def run(rng):
        import decomon.models.utils as MU

        rank = i(rng, 1, 3)
        dom = Dom(rng, ("box", "ball_2", "ball_inf", "ball_1")[i(rng, 0, 3)], n=i(rng, 1, 3), batch=i(rng, 1, 2))
        r = Relax(rng, dom, tuple(i(rng, 1, 3) for _ in range(rank)), mf)
        outs = MU.Convert2Mode(mode_from=mf, mode_to=mt, perturbation_domain=dom.domain, input_dim=dom.n)(r.inputs())
        check_out(outs, mt, r.pts, lambda y: y, f"{mf} to {mt}", 1e-8, r.data())

    return run


def inputs(kind, mode):
    def run(rng):
        from decomon.models.utils import get_input_tensors

        k = keras()
        dom = Dom(rng, kind, n=i(rng, 1, 4), batch=i(rng, 1, 3))
        a = k.layers.Input((dom.n,))
        m = k.Model(a, k.layers.Dense(1)(a))
        z, ins = get_input_tensors(m, dom.domain, ibp=mode != "affine", affine=mode != "ibp")
        outs = k.Model(z, list(ins))(tt(dom.x))
        pts = [(p, p) for p in dom.points(12)]
        check_out(outs, mode, pts, lambda y: y, f"input relaxation {kind}", 1e-8, dict(x=dom.x, eps=getattr(dom, "eps", None)))
        if mode != "ibp":
            close(nn(outs[0]), dom.x, "domain tensor")

    return run


CASES.append(("merge_with_previous", merge(False)))
CASES.append(("MergeWithPrevious", merge(True)))
for m in MODES:
    CASES.append((f"Fuse {m}", fuse(m)))
    CASES.append((f"Convert2BackwardMode {m}", close_(m)))
    for m2 in MODES:
        CASES.append((f"Convert2Mode {m} to {m2}", convert(m, m2)))
    for k in KINDS:
        CASES.append((f"input tensors {k} {m}", inputs(k, m)))
