"""Bounds on balls asked with numpy arrays, and the domain of a model changed after its conversion, on the real keras."""
from oracle.wrap import *
from oracle import wrap  # noqa

CASES.clear()
P = (np.inf, 2, 1)


def run_noise(mode, in_axes, out_axes, fn="get_range_noise"):
    def r(rng):
        import decomon.wrapper as W
        from decomon.core import BallDomain
        from decomon.models.convert import clone

        m = net(rng, in_axes=in_axes, out_axes=out_axes)
        p = P[i(rng, 0, 2)]
        eps = float(rng.choice([0.0, 0.2, 1.0, 3.0]))
        d = BallIn(rng, m, p, eps)
        kw = dict(batch_size=sizes(rng, d), eps=eps, p=p)
        model = m
        if mode is not None:
            own = BallDomain(eps=float(rng.choice([0.01, 0.3])), p=P[i(rng, 0, 2)])
            model = clone(m, method=mode, perturbation_domain=own)
            if rng.random() < 0.3:
                model(tt(d.x.reshape((d.B,) + tuple(model.inputs[0].shape[1:]))))
            if rng.random() < 0.2:
                kw["eps"], kw["p"] = -1.0, 2
                d.eps, d.p = own.eps, own.p
        x = d.x.copy()
        res = getattr(W, fn)(model, d.x, **kw)
        u, l = res if fn == "get_range_noise" else (res, None) if fn == "get_upper_noise" else (None, res)
        what = f"{fn} {mode} {kw}"
        if (x != d.x).any():
            raise Violation(what + ": the array of the user was changed", **d.data())
        q = list(d.points())
        for pt, v in zip(q, values(m, q)):
            for t in (u, l):
                if t is not None and len(t.shape) == 2:
                    # backward methods give the bounds of the flattened outputs
                    v = v.reshape((len(v), -1))
                if t is not None and tuple(t.shape) != v.shape:
                    raise Violation(f"{what}: shape {t.shape} expected {v.shape}", **d.data())
            k = dict(d.data(), point=pt, value=v, **ws(m))
            if u is not None:
                leq(v, u, what + ": value above the upper bound", **k)
            if l is not None:
                leq(l, v, what + ": value below the lower bound", **k)

    return r


def run_domain(mode, arch):
    def r(rng):
        from decomon.core import BallDomain
        from decomon.models.convert import clone

        m = build_model(rng, arch)
        doms = [BallDomain(eps=float(rng.choice([0.0, 0.1, 0.7, 2.0])), p=P[i(rng, 0, 2)]) for _ in range(i(rng, 2, 3))]
        dm = clone(m, method=mode, perturbation_domain=doms[0])
        x = rnd(rng, 2, m.inputs[0].shape[1])
        if rng.random() < 0.5:
            dm(tt(x))
        for d in doms[1:]:
            dm.set_domain(d)
        a, b = dm(tt(x)), clone(m, method=mode, perturbation_domain=doms[-1])(tt(x))
        k = dict(x=x, domains=[(d.eps, d.p) for d in doms], **ws(m))
        a, b = ([nn(t) for t in (o if isinstance(o, (list, tuple)) else [o])] for o in (a, b))
        if len(a) != len(b):
            raise Violation(f"set_domain {mode}: {len(a)} outputs, a fresh conversion has {len(b)}", **k)
        for j, (t, w) in enumerate(zip(a, b)):
            same_shape(t, w.shape, f"set_domain {mode}: output {j}", **k)
            close(t, w, f"set_domain {mode}: output {j} differs from that of a fresh conversion", **k)

    return r


for mode in FWD + CRW:
    for n, a in {"dense": seq_dense, "two outputs": two_outputs, **({"residual": residual, "conv": conv} if mode in FWD else {})}.items():
        CASES.append((f"set_domain {n} {mode}", run_domain(mode, a)))
for mode in (None,) + FWD + CRW:
    for ia, oa in ((1, 1), (1, 2), (2, 1)):
        CASES.append((f"noise {mode} {ia}-{oa}", run_noise(mode, ia, oa)))
for f in ("get_upper_noise", "get_lower_noise"):
    CASES.append((f, run_noise(None, 1, 1, f)))

if __name__ == "__main__":
    import sys

    main("C19", sys.argv[1:])
