from oracle.lib import *


def fn(module, name, **kw):
    def call(rng, dom, mode, ins, shapes):
        import importlib

        k = dict(kw)
        if k.pop("ft", False):
            k["finetune"] = True
            k["finetune_params"] = tt(rng.random(shapes[0]).round(int(rng.integers(0, 3))))
        return getattr(importlib.import_module(module), name)(*ins, mode=mode, perturbation_domain=dom, **k)

    return call


def layer(cls, **kw):
    def call(rng, dom, mode, ins, shapes):
        import decomon.layers.decomon_merge_layers as M

        L = getattr(M, cls)(perturbation_domain=dom, mode=mode, **kw)
        flat = [t for i in ins for t in i]
        L.build([tuple(t.shape) for t in flat])
        L.built = True
        return L(flat)

    return call


def same(k, rmax=3):
    def g(rng):
        s = tuple(int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, rmax + 1))))
        return [s] * k

    return g


def fold(f):
    def g(*ys):
        o = ys[0]
        for y in ys[1:]:
            o = f(o, y)
        return o

    return g


BIN = {"add": np.add, "subtract": np.subtract, "maximum": np.maximum, "minimum": np.minimum}
for n, f in BIN.items():
    multi_cases(f"utils.{n}", fn("decomon.utils", n), f, same(2), elementwise=True)
for n in ("maximum", "minimum"):
    multi_cases(f"utils.{n} finetune", fn("decomon.utils", n, ft=True), BIN[n], same(2), elementwise=True)
multi_cases("utils.minus", fn("decomon.utils", "minus"), np.negative, same(1), elementwise=True)
multi_cases("multiply", fn("decomon.layers.utils", "multiply"), np.multiply, same(2), elementwise=True)
for nb in (1, 2, 3):
    t = f"{nb} inputs"
    multi_cases(f"Add {t}", layer("DecomonAdd"), fold(np.add), same(nb), elementwise=True)
    multi_cases(f"Average {t}", layer("DecomonAverage"), lambda *y: sum(y) / len(y), same(nb), elementwise=True)
    multi_cases(f"Multiply {t}", layer("DecomonMultiply"), fold(np.multiply), same(nb), elementwise=True)
    multi_cases(f"Maximum {t}", layer("DecomonMaximum"), fold(np.maximum), same(nb), elementwise=True)
    multi_cases(f"Minimum {t}", layer("DecomonMinimum"), fold(np.minimum), same(nb), elementwise=True)
multi_cases("Subtract", layer("DecomonSubtract"), np.subtract, same(2), elementwise=True)


def cat(rank, axis, nb):
    def g(rng):
        # keras' own Concatenate.build drops axes of size 1
        s = [int(rng.integers(2, 4)) for _ in range(rank)]
        out = []
        for _ in range(nb):
            t = list(s)
            t[axis - 1 if axis > 0 else axis] = int(rng.integers(1, 4))
            out.append(tuple(t))
        return out

    return g


for rank, axis in ((1, -1), (1, 1), (2, -1), (2, 1), (2, 2), (3, 1), (3, -1), (3, 2), (3, -2)):
    multi_cases(f"Concatenate axis {axis} rank {rank}", layer("DecomonConcatenate", axis=axis), lambda *y, axis=axis: np.concatenate(y, axis), cat(rank, axis, 3))


def kdot(axes, normalize=False):
    def f(a, b):
        import keras

        return nn(keras.layers.Dot(axes=axes, normalize=normalize)([tt(a), tt(b)]))

    return f


def dsh(r0, r1, axes):
    def g(rng):
        a = (axes, axes) if isinstance(axes, int) else axes
        c = int(rng.integers(1, 4))
        out = []
        for r, x in zip((r0, r1), a):
            s = [int(rng.integers(1, 4)) for _ in range(r)]
            s[x - 1 if x > 0 else x] = c
            out.append(tuple(s))
        return out

    return g


for r0, r1, axes in ((1, 1, 1), (1, 1, -1), (2, 2, 1), (2, 2, 2), (2, 2, (1, 2)), (2, 2, (2, 1)), (2, 1, (1, 1)), (1, 2, (1, 2)), (2, 2, -1), (2, 1, (2, 1)), (3, 2, (2, 1)), (3, 3, (3, 1))):
    multi_cases(f"Dot ranks {r0},{r1} axes {axes}", layer("DecomonDot", axes=axes), kdot(axes), dsh(r0, r1, axes))
multi_cases("Dot normalize", layer("DecomonDot", axes=1, normalize=True), kdot(1, True), dsh(1, 1, 1))
