"""Formal certificates on the real keras: scores against the margins, or weighted outputs, at points of the domain."""
from oracle.o23 import *

CASES.clear()


def run_score(method, ball, check):
    def r(rng):
        import decomon.metrics.metric as M

        n = i(rng, 2, 4)
        m, d, dm, x = scene(rng, method, ball, n)
        vs = np.stack(values(m, list(d.points(60))))
        y = onehot(rng, vs.shape[1], n)
        f = (M.build_formal_adv_check_model if check else M.build_formal_adv_model)(dm)
        k = dict(d.data(), labels=y, **ws(m))
        got = nn(f([x, tt(y)]))
        same_shape(got, (vs.shape[1],), f"score {method}", **k)
        if not check:
            leq(margin(vs, y), got, f"adversarial score {method}: a margin above the score", **k)
        elif not ball:
            # the largest margin over a fine grid: the corners and many points
            more = np.stack(values(m, list(d.points(400))))
            # relaxed outputs are reached by some affine bound only: compare with the margins of the bounds themselves
            u, l = outer_bounds(dm, x, d, more)
            top = np.array([max(u[b, t] - l[b, s] for t in np.flatnonzero(y[b] == 0) for s in np.flatnonzero(y[b] == 1)) for b in range(d.B)])
            leq(got, top, f"adversarial check {method}: above every margin of the bounds", **k)
            low = np.array([min(l[b, t] - u[b, s] for t in np.flatnonzero(y[b] == 0) for s in np.flatnonzero(y[b] == 1)) for b in range(d.B)])
            leq(low, got, f"adversarial check {method}: masked labels in the score", **k)

    return r


def outer_bounds(dm, x, d, vs):
    """constant bounds of the outputs on the box"""
    o = [nn(t) for t in dm(x)]
    if dm.ibp and not dm.affine:
        return o[0], o[1]
    wu, bu, wl, bl = (o[2], o[3], o[5], o[6]) if dm.ibp else o[1:]
    lo, hi = d.lo.reshape(d.B, -1), d.hi.reshape(d.B, -1)
    up = np.einsum("bi,bio->bo", hi, np.maximum(wu, 0)) + np.einsum("bi,bio->bo", lo, np.minimum(wu, 0)) + bu
    dn = np.einsum("bi,bio->bo", lo, np.maximum(wl, 0)) + np.einsum("bi,bio->bo", hi, np.minimum(wl, 0)) + bl
    return up, dn


def run_check_exact(method):
    """on a point domain, for an affine network, the check is the margin (largest over the admitted pairs)"""

    def r(rng):
        import decomon.metrics.metric as M
        from decomon.core import BoxDomain
        from decomon.models.convert import clone

        n, k, B = i(rng, 2, 4), i(rng, 1, 3), i(rng, 1, 4)
        keras().backend.clear_session()
        m = keras().Sequential([KL().Input((k,)), KL().Dense(3), KL().Dense(n)])
        initw(rng, m)
        dm = clone(m, method=method)
        p = rnd(rng, B, k)
        y = onehot(rng, B, n)
        v = np.stack(values(m, [p]))
        got = nn(M.build_formal_adv_check_model(dm)([tt(np.stack([p, p], 1)), tt(y)]))
        leq(got, margin(v, y), f"adversarial check {method}: above every margin", 1e-6, x=p, labels=y, outputs=v, **ws(m))

    return r


def run_upper(method, ball):
    def r(rng):
        import decomon.metrics.metric as M

        m, d, dm, x = scene(rng, method, ball)
        vs = np.stack(values(m, list(d.points(60))))
        y = abs(rnd(rng, *vs.shape[1:])) * (rng.random(vs.shape[1:]) < 0.7)
        got = nn(M.build_formal_upper_model(dm)([x, tt(y)]))
        k = dict(d.data(), labels=y, **ws(m))
        same_shape(got, (vs.shape[1],), f"upper score {method}", **k)
        leq((vs * y).sum(-1).max(0), got, f"upper score {method}: above the score", **k)

    return r


for method in FWD + ("crown", "crown-forward-hybrid"):
    for ball in (False, True):
        t = f"{method} {'ball' if ball else 'box'}"
        CASES.append((f"adversarial score {t}", run_score(method, ball, False)))
        CASES.append((f"upper score {t}", run_upper(method, ball)))
        if not ball:
            CASES.append((f"adversarial check {t}", run_score(method, ball, True)))
    CASES.append((f"adversarial check of an affine network {method}", run_check_exact(method)))

if __name__ == "__main__":
    import sys

    main("C24", sys.argv[1:])
