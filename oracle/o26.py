"""Tuned bounds on a box with real optimizers: valid, not looser than the untuned ones, coefficients and weights as they were."""
from oracle.wrap import *

CASES.clear()


def run_tuning(side, method, split=False):
    def run(rng):
        import decomon
        import decomon.wrapper_with_tuning as T
        from decomon.metrics.loss import get_model
        from decomon.models.convert import clone

        m = net(rng)
        bx = BoxIn(rng, m, B=i(rng, 1, 4))
        dm = clone(m, method=method, finetune=True)
        ws = [nn(w) for w in m.weights]
        f, g = getattr(T, f"get_{side}_box_tuning"), getattr(T, f"get_{side}_box")
        base = g(dm, bx.lo, bx.hi, batch_size=-1)
        kw = dict(batch_size=(-1, 1, 2, 3)[i(rng, 0, 3)], epochs=i(rng, 1, 3), lr=(0.1, 1.0, 5.0)[i(rng, 0, 2)])
        if split:
            kw["n_sub_boxes"] = i(rng, 2, 4)
        res = np.asarray(f(dm, get_model(dm), bx.lo, bx.hi, **kw))
        d = dict(bx.data(), method=method, options=str(kw), weights=ws, config=str([l.get_config() for l in m.layers])[:3000])
        name = f"{side} {method}"
        if res.shape != base.shape:
            raise Violation(f"{name}: shape {res.shape} instead of {base.shape}", **d)
        up = (lambda a, b, w, **k: leq(b, a, w, 1e-5, **k)) if side == "upper" else (lambda a, b, w, **k: leq(a, b, w, 1e-5, **k))
        for p in bx.points(20):
            v = nn(m(tt(p.reshape(bx.B, -1))))
            up(res, v, f"{name}: tuned bound and value", point=p, value=v, **d)
        if not split:
            up(base, res, f"{name}: tuned and untuned bound", **d)
        for w, v in zip(m.weights, ws):
            close(nn(w), v, f"{name}: weights of the network after tuning", 0, **d)
        close(g(dm, bx.lo, bx.hi, batch_size=-1), base, f"{name}: bounds after tuning are the ones before", 1e-6, **d)

    return run


for side in ("upper", "lower"):
    for me in ("crown", "crown-forward-hybrid", "crown-forward-affine", "forward-hybrid", "forward-affine"):
        CASES.append((f"{side} {me}", run_tuning(side, me)))
        CASES.append((f"{side} {me} sub-boxes", run_tuning(side, me, True)))
