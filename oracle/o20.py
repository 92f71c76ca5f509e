"""Adversarial scores asked with numpy arrays, on the real keras."""
from oracle.wrap import *
from oracle import wrap  # noqa

CASES.clear()
P = (np.inf, 2, 1)


def masks(rng, B, n, form, avoid=None):
    """a way to give labels, and the mask it means (never all the labels)"""
    m = np.zeros((B, n), int)
    if form == "int":
        v = int(rng.choice([k for k in range(n) if avoid is None or not avoid[:, k].any()] or [-1]))
        if v < 0:
            form = "mask"
        else:
            m[:, v] = 1
            return (v if rng.random() < 0.5 else np.int_(v)), m
    for b in range(B):
        c = [k for k in range(n) if avoid is None or not avoid[b, k]]
        q = 1 if form != "mask" or rng.random() < 0.6 else min(i(rng, 1, n - 1), len(c))
        m[b, rng.choice(c, q, replace=False)] = 1
    if form == "vector":
        v = m.argmax(-1)
        return (v if rng.random() < 0.5 else v.tolist()), m
    return (m if rng.random() < 0.7 else m.tolist()), m


FORMS = ("int", "vector", "mask")


def margins(vals, S, Tm):
    """exact worst margins at the sampled points: largest over the points, target labels, source labels"""
    out = np.full(len(S), -np.inf)
    for v in vals:
        for b in range(len(S)):
            for t in np.flatnonzero(Tm[b]):
                for s in np.flatnonzero(S[b]):
                    out[b] = max(out[b], v[b, t] - v[b, s])
    return out


def labels(rng, B, n, tg):
    for _ in range(20):
        s, S = masks(rng, B, n, FORMS[i(rng, 0, 2)])
        if not tg:
            return s, S, None, 1 - S
        t, Tm = masks(rng, B, n, FORMS[i(rng, 0, 2)], S)
        # (a mask and indices are told apart by the number of columns)
        return s, S, t, Tm


def run_adv(mode, tg, sub=False, back=False, check=False):
    def r(rng):
        import decomon.wrapper as W
        from decomon.core import BoxDomain
        from decomon.models.convert import clone

        n = i(rng, 2, 4)
        m = net(rng, in_axes=i(rng, 1, 2), outs=n)
        d = BoxIn(rng, m)
        s, S, t, Tm = labels(rng, d.B, n, tg)
        kw = dict(batch_size=sizes(rng, d))
        if t is not None:
            kw["target_labels"] = t
        if sub:
            kw["n_sub_boxes"] = int(rng.choice([2, 3, 4, 5]))
        o = dict(back_bounds=[KL().Input((n, n))]) if back else {}
        model = m if mode is None else clone(m, method=mode, perturbation_domain=BoxDomain(), **o)
        what = f"{'check_adv_box' if check else 'get_adv_box'} {mode} source {s} {kw}"
        q = list(d.points(60))
        v = values(m, q)
        best = margins(v, S, Tm)
        k = dict(d.data(), source=S, target=Tm, margins=best, **ws(m))
        if check:
            got = W.check_adv_box(model, d.lo, d.hi, s, **kw)
        else:
            got = W.get_adv_box(model, d.lo, d.hi, s, **kw)
        same_shape(got, (d.B,), what, **k)
        if check:
            # a pair of labels and a point reach the score: the corners of the box that each pair would use are among the points tried
            lo, hi = d.lo.reshape((d.B, -1)), d.hi.reshape((d.B, -1))
            N = lo.shape[1]
            pts = [np.where(np.array(c), hi, lo).reshape(d.lo.shape) for c in np.ndindex(*([2] * N))]
            best = np.maximum(best, margins(values(m, pts), S, Tm))
            leq(got, best, what + ": above the margin reached in the box", **k)
        else:
            leq(best, got, what + ": a margin above the score", **k)
            # only the admitted pairs count
            rng_u, rng_l = W.get_range_box(model if not back else m, d.lo, d.hi)
            if not back and mode is not None:
                top = np.array([max(rng_u[b, x] - rng_l[b, y] for x in np.flatnonzero(Tm[b]) for y in np.flatnonzero(S[b])) for b in range(d.B)])
                if not sub:
                    leq(got, top, what + ": above the margins of the constant bounds of the admitted pairs", **k)

    return r


def run_noise(mode, tg):
    def r(rng):
        import decomon.wrapper as W
        from decomon.core import BallDomain
        from decomon.models.convert import clone

        n = i(rng, 2, 4)
        m = net(rng, in_axes=i(rng, 1, 2), outs=n)
        p = P[i(rng, 0, 2)]
        eps = float(rng.choice([0.0, 0.2, 1.0, 3.0]))
        d = BallIn(rng, m, p, eps)
        s, S, t, Tm = labels(rng, d.B, n, tg)
        kw = dict(batch_size=sizes(rng, d), eps=eps, p=p)
        if t is not None:
            kw["target_labels"] = t
        model = m
        if mode is not None:
            own = BallDomain(eps=float(rng.choice([0.01, 0.3])), p=P[i(rng, 0, 2)])
            model = clone(m, method=mode, perturbation_domain=own)
            if rng.random() < 0.2:
                kw["eps"], kw["p"] = -1.0, 2
                d.eps, d.p = own.eps, own.p
        what = f"get_adv_noise {mode} source {s} {kw}"
        best = margins(values(m, list(d.points(60))), S, Tm)
        k = dict(d.data(), source=S, target=Tm, margins=best, **ws(m))
        got = W.get_adv_noise(model, d.x, s, **kw)
        same_shape(got, (d.B,), what, **k)
        leq(best, got, what + ": a margin above the score", **k)

    return r


for mode in (None,) + FWD + CRW:
    for tg in (False, True):
        nm = f"{mode} {'targets' if tg else ''}"
        CASES.append((f"adv box {nm}", run_adv(mode, tg)))
        CASES.append((f"adv box {nm} sub-boxes", run_adv(mode, tg, True)))
        CASES.append((f"check adv box {nm}", run_adv(mode, tg, check=True)))
        CASES.append((f"adv noise {nm}", run_noise(mode, tg)))
        if mode in ("crown", "crown-forward-hybrid", "forward-hybrid"):
            CASES.append((f"adv box {nm} bounds given on the outputs", run_adv(mode, tg, back=True)))
            CASES.append((f"adv box {nm} bounds given on the outputs, sub-boxes", run_adv(mode, tg, True, back=True)))

if __name__ == "__main__":
    import sys

    main("C20", sys.argv[1:])
