"""Training losses on the real keras: each is at least the worst value found at points of the domain."""
from oracle.wrap import *

CASES.clear()
P = (np.inf, 2, 1)


def scene(rng, method, ball, outs=None, kw=None):
    from decomon.core import BallDomain, BoxDomain
    from decomon.models.convert import clone

    m = net(rng, outs=outs)
    if ball:
        p, eps = P[i(rng, 0, 2)], float(rng.choice([0.0, 0.2, 1.0]))
        d = BallIn(rng, m, p, eps)
        dom, x = BallDomain(eps=eps, p=p), d.x
    else:
        d = BoxIn(rng, m)
        dom, x = BoxDomain(), np.stack([d.lo, d.hi], 1)
    dm = clone(m, method=method, perturbation_domain=dom, **(kw or {}))
    return m, d, dm, tt(x)


def number(v, what, **k):
    v = nn(v)
    same_shape(v, (), what, **k)
    return v


def onehot(rng, B, n):
    y = np.zeros((B, n))
    y[np.arange(B), rng.integers(0, n, B)] = 1.0
    if n > 2 and rng.random() < 0.3:
        y[rng.integers(0, B), rng.integers(0, n)] = 1.0
        if y.all(-1).any():
            y[y.all(-1), 0] = 0.0
    return y


def run_bound(method, ball, which):
    def r(rng):
        import decomon.metrics.loss as L

        m, d, dm, x = scene(rng, method, ball)
        vs = np.stack(values(m, list(d.points(60))))
        ref = rnd(rng, *vs.shape[1:])
        got = number(getattr(L, f"get_{which}_loss")(dm)(tt(ref), L.get_model(dm)(x)), which, **d.data(), **ws(m))
        v = vs - ref if which == "upper" else ref - vs
        leq(v.max(-1).max(0).mean(), got, f"{which} loss {method}: above the loss", reference=ref, **d.data(), **ws(m))

    return r


def margin(vs, y):
    out = np.full(vs.shape[1], -np.inf)
    for b in range(vs.shape[1]):
        for t in np.flatnonzero(y[b] == 0):
            for s in np.flatnonzero(y[b] == 1):
                out[b] = max(out[b], (vs[:, b, t] - vs[:, b, s]).max())
    return out


def run_adv(method, ball):
    def r(rng):
        import decomon.metrics.loss as L

        n = i(rng, 2, 4)
        m, d, dm, x = scene(rng, method, ball, n)
        vs = np.stack(values(m, list(d.points(60))))
        y = onehot(rng, vs.shape[1], n)
        kw = {}
        if rng.random() < 0.3:
            kw["clip_value"] = float(rng.choice([0.0, -0.3, 1.0]))
        kw["sigmoid"] = bool(rng.random() < 0.4)
        kw["softmax"] = bool(rng.random() < 0.3)
        if kw["softmax"]:
            e = np.exp(vs - vs.max(-1, keepdims=True))
            vs = e / e.sum(-1, keepdims=True)
        w = margin(vs, y)
        if "clip_value" in kw:
            w = np.maximum(w, kw["clip_value"])
        if kw["sigmoid"]:
            w = 1 / (1 + np.exp(-w))
        got = number(L.get_adv_loss(dm, **kw)(tt(y), L.get_model(dm)(x)), "adv", **d.data(), **ws(m))
        leq(w.mean(), got, f"adversarial loss {method} {kw}: above the loss", 1e-5 if kw["softmax"] else 0.0, labels=y, **d.data(), **ws(m))

    return r


def run_entropy(method, ball, asymptotic):
    def r(rng):
        import decomon.metrics.loss as L

        n = i(rng, 2, 4)
        m, d, dm, x = scene(rng, method, ball, n)
        vs = np.stack(values(m, list(d.points(60))))
        got = nn((L.build_asymptotic_crossentropy_model if asymptotic else L.build_crossentropy_model)(dm)(x))
        k = dict(d.data(), **ws(m))
        same_shape(got, vs.shape[1:], f"cross entropy {method}", **k)
        if asymptotic:
            v = np.stack([np.maximum(margin(vs, np.tile(np.eye(n)[c], (vs.shape[1], 1))), -1) for c in range(n)], -1)
        else:
            t = vs.max(-1, keepdims=True)
            v = (t + np.log(np.exp(vs - t).sum(-1, keepdims=True)) - vs).max(0)
        leq(v, got, f"cross entropy {method}: above the output", **k)

    return r


def run_radius(method):
    def r(rng):
        import decomon.metrics.loss as L

        n = i(rng, 2, 4)
        m, d, dm, x = scene(rng, method, False, n)
        got = nn(L.build_radius_robust_model(dm)(x))
        k = dict(d.data(), radius=1 - got, **ws(m))
        same_shape(got, (d.B, n), f"radius {method}", **k)
        c, w = (d.lo + d.hi) / 2, (d.hi - d.lo) / 2
        outs = [nn(t) for t in dm(x)]
        a = dict(zip(("wu", "bu", "wl", "bl"), outs[1:] if len(outs) == 5 else (outs[2], outs[3], outs[5], outs[6])))
        xc, xw = c.reshape(d.B, -1), w.reshape(d.B, -1)
        for s in range(n):
            e = np.ones(d.B)
            for j in range(n):
                if j != s:
                    W = a["wu"][:, :, j] - a["wl"][:, :, s]
                    score = (W * xc).sum(1) + a["bu"][:, j] - a["bl"][:, s]
                    e = np.minimum(e, -score / ((np.abs(W) * np.maximum(xw, 1e-7)).sum(1) + 1e-7))
            leq(np.where(e >= 0, e, -np.inf), np.where(e >= 0, 1 - got[:, s], 0.0), f"radius {method}: label {s}: less than the bounds show", 1e-6, **k)
        for s in range(n):
            e = np.minimum(1 - got[:, s], 1.0)
            ok = e >= 0
            for t in range(20):
                u = rng.uniform(-1, 1, c.shape)
                v = nn(m(tt((c + e.reshape((-1,) + (1,) * (c.ndim - 1)) * w * (np.sign(u) if t % 2 else u)).reshape(d.B, -1)), training=False))
                leq((v - v[:, s : s + 1])[ok], 0.0, f"radius {method}: another label above label {s} inside the certified radius", 1e-6, **k)

    return r


def run_function(mode):
    """categorical_cross_entropy on bounds"""

    def r(rng):
        import decomon.metrics.utils as U
        from decomon.models.convert import clone
        from decomon.core import BoxDomain

        method = "forward-" + mode
        m, d, dm, x = scene(rng, method, False, i(rng, 2, 4))
        outs = U.categorical_cross_entropy(list(dm(x)), mode=mode, perturbation_domain=BoxDomain())
        k = dict(d.data(), **ws(m))
        lin = lambda w, b, pt: np.einsum("bi,bio->bo", pt.reshape(len(pt), -1), nn(w)) + nn(b)
        for pt in list(d.points(30)):
            v = values(m, [pt])[0]
            t = v.max(-1, keepdims=True)
            z = t + np.log(np.exp(v - t).sum(-1, keepdims=True)) - v
            if mode != "affine":
                u, l = (outs[1], outs[4]) if mode == "hybrid" else outs
                leq(z, nn(u), f"cross entropy {mode}: above the upper bound", 1e-5, **k)
                leq(nn(l), z, f"cross entropy {mode}: below the lower bound", 1e-5, **k)
            if mode != "ibp":
                a = (outs[2], outs[3], outs[5], outs[6]) if mode == "hybrid" else outs[1:]
                leq(z, lin(a[0], a[1], pt), f"cross entropy {mode}: above the affine upper bound", 1e-5, **k)
                leq(lin(a[2], a[3], pt), z, f"cross entropy {mode}: below the affine lower bound", 1e-5, **k)

    return r


for method in FWD + ("crown", "crown-forward-hybrid"):
    for ball in (False, True):
        t = f"{method} {'ball' if ball else 'box'}"
        CASES.append((f"upper loss {t}", run_bound(method, ball, "upper")))
        CASES.append((f"lower loss {t}", run_bound(method, ball, "lower")))
        CASES.append((f"adv loss {t}", run_adv(method, ball)))
        if method in FWD:
            for a in (False, True):
                CASES.append((f"{'asymptotic ' if a else ''}cross entropy {t}", run_entropy(method, ball, a)))
    if method in FWD[1:]:
        CASES.append((f"radius {method}", run_radius(method)))
for mode in ("ibp", "affine", "hybrid"):
    CASES.append((f"categorical_cross_entropy {mode}", run_function(mode)))

if __name__ == "__main__":
    import sys

    main("C23", sys.argv[1:])
