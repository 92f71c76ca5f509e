from oracle.lib import *


def fn(name, post=None, **kw):
    def call(rng, dom, mode, ins, shapes):
        import decomon.layers.utils as LU

        k = {a: (v(shapes[0]) if callable(v) else v) for a, v in kw.items()}
        if k.pop("ft", False):
            k["finetune"] = True
            k["finetune_params"] = tt(rng.random(shapes[0]).round(int(rng.integers(0, 3))))
        out = getattr(LU, name)(*ins, mode=mode, perturbation_domain=dom, **k)
        return post(out) if post else out

    return call


def shp(rank):
    return lambda rng: [tuple(int(rng.integers(1, 4)) for _ in range(rank))]


one = lambda rng: [tuple(int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 4))))]
AX = [(r, a) for r in (1, 2, 3) for a in list(range(1, r + 1)) + list(range(-r, 0))]
for r, a in AX:
    t = f"rank {r} axis {a}"
    multi_cases(f"sum {t}", fn("sum", axis=a), lambda y, a=a: y.sum(a), shp(r))
    multi_cases(f"max_ {t}", fn("max_", axis=a), lambda y, a=a: y.max(a), shp(r))
    multi_cases(f"min_ {t}", fn("min_", axis=a), lambda y, a=a: y.min(a), shp(r))
    multi_cases(f"sort {t}", fn("sort", axis=a), lambda y, a=a: np.sort(y, a), shp(r))
    multi_cases(f"expand_dims {t}", fn("expand_dims", axis=a), lambda y, a=a: np.expand_dims(y, a), shp(r), elementwise=True)
    for nb in (1, 2):
        multi_cases(f"broadcast {nb} {t}", fn("broadcast", n=nb, axis=a), lambda y, a=a, nb=nb: np.expand_dims(np.expand_dims(y, a), a) if nb == 2 else np.expand_dims(y, a), shp(r), elementwise=True)
    for k in (0, 1, 2):
        multi_cases(f"split {k} {t}", fn("split", lambda o, k=k: o[k % len(o)], axis=a), lambda y, a=a, k=k: np.take(y, [k % y.shape[a]], a), shp(r))
for r in (2, 3):
    for a in list(range(1, r + 1)) + [-1]:
        for p in range(1, r + 1):
            multi_cases(f"permute_dimensions rank {r} axis {a} to {p}", fn("permute_dimensions", axis=a, axis_perm=p), lambda y, a=a, p=p: np.moveaxis(y, a, p), shp(r), elementwise=True)
for r in (1, 2):
    for a in range(1, r + 1):
        multi_cases(f"max_ finetune rank {r} axis {a}", fn("max_", axis=a, ft=True), lambda y, a=a: y.max(a), shp(r), modes=("hybrid", "affine"))
        multi_cases(f"min_ finetune rank {r} axis {a}", fn("min_", axis=a, ft=True), lambda y, a=a: y.min(a), shp(r), modes=("hybrid", "affine"))
multi_cases("pow", fn("pow"), np.square, one, elementwise=True)
multi_cases("abs", fn("abs"), np.abs, one, elementwise=True)
multi_cases("exp", fn("exp"), np.exp, one, elementwise=True)
multi_cases("log", fn("log"), np.log, one, elementwise=True, positive=0.05)
multi_cases("frac_pos", fn("frac_pos"), lambda y: 1 / y, one, elementwise=True, positive=0.05)
