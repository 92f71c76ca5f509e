"""Bounds on boxes asked with numpy arrays, on the real keras."""
from oracle.wrap import *
from oracle import wrap  # noqa

CASES.clear()


def run(mode, in_axes, out_axes, sub=False, fn="get_range_box"):
    def r(rng):
        import decomon.wrapper as W
        from decomon.core import BoxDomain
        from decomon.models.convert import clone

        m = net(rng, in_axes=in_axes, out_axes=out_axes)
        d = BoxIn(rng, m)
        kw = dict(batch_size=sizes(rng, d))
        if sub:
            kw["n_sub_boxes"] = int(rng.choice([2, 3, 4, 5]))
        model = m if mode is None else clone(m, method=mode, perturbation_domain=BoxDomain())
        lo, hi = d.lo.copy(), d.hi.copy()
        res = getattr(W, fn)(model, d.lo, d.hi, **kw)
        u, l = res if fn == "get_range_box" else (res, None) if fn == "get_upper_box" else (None, res)
        what = f"{fn} {mode} {kw}"
        if (lo != d.lo).any() or (hi != d.hi).any():
            raise Violation(what + ": the arrays of the user were changed", **d.data())
        for p, v in zip(*(lambda q: (q, values(m, q)))(list(d.points()))):
            for t in (u, l):
                if t is not None and len(t.shape) == 2:
                    # backward methods give the bounds of the flattened outputs
                    v = v.reshape((len(v), -1))
                if t is not None and tuple(t.shape) != v.shape:
                    raise Violation(f"{what}: shape {t.shape} expected {v.shape}", **d.data())
            k = dict(d.data(), point=p, value=v, **ws(m))
            if u is not None:
                leq(v, u, what + ": value above the upper bound", **k)
            if l is not None:
                leq(l, v, what + ": value below the lower bound", **k)

    return r


for mode in (None,) + FWD + CRW:
    for ia, oa in ((1, 1), (1, 2), (2, 1)):
        CASES.append((f"range {mode} {ia}-{oa}", run(mode, ia, oa)))
        CASES.append((f"range {mode} {ia}-{oa} sub-boxes", run(mode, ia, oa, True)))
for f in ("get_upper_box", "get_lower_box"):
    CASES.append((f"{f}", run(None, 1, 1, False, f)))
    CASES.append((f"{f} sub-boxes", run(None, 1, 1, True, f)))

if __name__ == "__main__":
    import sys

    main("C18", sys.argv[1:])
