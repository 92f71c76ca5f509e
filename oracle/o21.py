"""Sub-boxes of refine_boxes and scores by sub-boxes of refine_box, on the real keras."""
from oracle.o20 import *
from oracle import o20

CASES.clear()


def run_boxes(rng):
    import decomon.wrapper as W

    B = i(rng, 1, 4)
    sh = tuple(i(rng, 1, 3) for _ in range(i(rng, 1, 3)))
    a, b = rnd(rng, B, *sh), rnd(rng, B, *sh)
    lo, hi = np.minimum(a, b), np.maximum(a, b)
    if rng.random() < 0.3:
        hi = np.where(rng.random(hi.shape) < 0.4, lo, hi)
    n = i(rng, 1, 20)
    X, Y = W.refine_boxes(lo.copy(), hi.copy(), n)
    k = dict(x_min=lo, x_max=hi, n=n, X_min=X, X_max=Y)
    q = 2 ** int(np.log2(n))
    same_shape(X, (B, q) + sh, "refine_boxes: lower corners", **k)
    same_shape(Y, (B, q) + sh, "refine_boxes: upper corners", **k)
    leq(X, Y, "refine_boxes: corners in order", **k)
    leq(np.broadcast_to(lo[:, None], X.shape), X, "refine_boxes: inside the box", **k)
    leq(Y, np.broadcast_to(hi[:, None], Y.shape), "refine_boxes: inside the box", **k)
    f = lambda t: t.reshape((B, q, -1))
    flat = (hi > lo).reshape((B, -1)).all(-1)
    vol = np.prod(f(Y) - f(X), -1).sum(1)
    full = np.prod((hi - lo).reshape((B, -1)), -1)
    close(np.where(flat, vol, 0.0), np.where(flat, full, 0.0), "refine_boxes: volumes do not add up", **k)
    for _ in range(60):
        x = lo + rng.random(lo.shape) * (hi - lo)
        x = np.where(rng.random(lo.shape) < 0.2, lo, np.where(rng.random(lo.shape) < 0.2, hi, x))
        ins = ((f(X) <= x.reshape((B, 1, -1)) + 1e-9) & (x.reshape((B, 1, -1)) <= f(Y) + 1e-9)).all(-1).any(1)
        leq(np.ones(B), ins.astype(float), "refine_boxes: a point of the box is in no sub-box", x=x, **k)


def run_box(fn, mode, tg):
    def r(rng):
        import decomon.wrapper as W
        from decomon.core import BoxDomain
        from decomon.models.convert import clone

        n = i(rng, 2, 3)
        m = net(rng, in_axes=i(rng, 1, 2), outs=n)
        d = BoxIn(rng, m)
        np.random.seed(int(rng.integers(0, 2**31)))
        q = i(rng, 1, 6)
        kw = dict(n_split=q, random=bool(rng.random() < 0.5))
        kw.update(batch_size=int(rng.choice([-1, 1, d.B * q])))
        model = m if mode is None else clone(m, method=mode, perturbation_domain=BoxDomain())
        v = values(m, list(d.points(80)))
        k = dict(d.data(), **ws(m))
        f = getattr(W, fn)
        if "adv" in fn:
            s, S, t, Tm = labels(rng, d.B, n, tg)
            kw["source_labels"] = s
            if t is not None:
                kw["target_labels"] = t
        what = f"refine_box {fn} {mode} {kw}"
        got = W.refine_box(f, model, d.lo, d.hi, **kw)
        if "adv" in fn:
            best = margins(v, S, Tm)
            same_shape(got, (d.B,), what, **k)
            if fn == "get_adv_box":
                leq(best, got, what + ": a margin above the score", source=S, target=Tm, **k)
            else:
                L = W.get_adv_box(m, d.lo, d.hi, s, **({"target_labels": t} if t is not None else {}))
                leq(got, L, what + ": above the certified score of the box", source=S, target=Tm, **k)
        else:
            same_shape(got, (d.B, n), what, **k)
            for y in v:
                if fn == "get_upper_box":
                    leq(y, got, what + ": a value above", **k)
                else:
                    leq(got, y, what + ": a value below", **k)

    return r


CASES.append(("refine_boxes", run_boxes))
for mode in (None, "forward-ibp", "forward-hybrid", "crown", "crown-forward-hybrid"):
    for fn in ("get_upper_box", "get_lower_box", "get_adv_box", "check_adv_box"):
        for tg in (False, True) if "adv" in fn else (False,):
            CASES.append((f"refine_box {fn} {mode}{' targets' if tg else ''}", run_box(fn, mode, tg)))
