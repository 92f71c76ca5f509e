"""Layers that move or rescale values: BatchNormalization, Flatten, Reshape, Permute, Dropout (inference), InputLayer,
linear activation."""
import numpy as np

from engine.tensor import con, dim
from .lib import *
from .lib import _bi


def dl(cls, **kw):
    def mk(**k):
        import decomon.layers.decomon_layers as L
        import decomon.layers.decomon_reshape as R

        return getattr(L, cls, None)(**kw, **k) if hasattr(L, cls) else getattr(R, cls)(**kw, **k)

    return mk


def bn_spec(axis, center, scale):
    def s(layer, y):
        r = y.ndim
        sh = [1] * r
        sh[axis] = y.shape[axis]
        rs = lambda v: K.reshape(v, sh)
        z = (y - rs(layer.moving_mean)) / K.sqrt(rs(layer.moving_variance) + layer.epsilon)
        if scale:
            z = z * rs(layer.gamma)
        if center:
            z = z + rs(layer.beta)
        return z

    return s


def bn_hook(ctx, sc, layer, y):
    layer.build([i.shape for i in layer._inputs_])
    layer.built = True


def S(n):
    return [(dim(f"s{i}"),) for i in range(n)]


def flatten_spec(df):
    def s(layer, y):
        if df == "channels_first" and y.ndim > 2:
            y = K.transpose(y, [0] + list(range(2, y.ndim)) + [1])
        return K.reshape(y, (-1, dsize(tuple(d for t in y.dims[1:] for d in t))) if y.ndim > 1 else (-1, 1))

    return s


def reshape_spec(target):
    def s(layer, y):
        n = dsize(tuple(a for d in y.dims[1:] for a in d))
        t = [n // int(-np.prod(target)) if k == -1 else k for k in target]
        return K.reshape(y, [-1] + t)

    return s


def permute_spec(p):
    return lambda layer, y: K.transpose(y, [0] + list(p))


def cases():
    out = []
    L = "decomon.layers.decomon_layers."
    R = "decomon.layers.decomon_reshape."
    for mode in MODES:
        for rank, axis in ((1, -1), (1, 1), (2, -1), (3, 1), (3, 3), (3, -2)):
            for c, s in ((True, True), (True, False), (False, True), (False, False)):
                if rank == 3 and not (c and s) and axis != 1:
                    continue
                out.append(case(f"BatchNormalization rank {rank} axis {axis} center={c} scale={s} {nm(mode)}",
                                forward(dl("DecomonBatchNormalization", axis=axis, center=c, scale=s), bn_spec(axis, c, s), lambda rank=rank: S(rank), mode,
                                        ctxhook=variance_hook),
                                [L + "DecomonBatchNormalization.call", L + "DecomonBatchNormalization.build"]))
        for dc in (False, True):
            for rank in (1, 2, 3):
                for df in (None, "channels_last", "channels_first"):
                    out.append(case(f"Flatten rank {rank} {df} {nm(mode, dc)}",
                                    forward(dl("DecomonFlatten", data_format=df), flatten_spec(df), lambda rank=rank: S(rank), mode, dc), [L + "DecomonFlatten.call"]))
            for frm, to in (((2, 6), (3, 4)), ((2, 6), (12,)), ((12,), (2, 3, 2)), ((2, 6), (-1, 4)), ((4,), (4,))):
                out.append(case(f"Reshape {frm} to {to} {nm(mode, dc)}",
                                forward(dl("DecomonReshape", target_shape=to), reshape_spec(to), lambda frm=frm: [(con(k),) for k in frm], mode, dc), [R + "DecomonReshape.call"]))
            out.append(case(f"Reshape to (-1,) {nm(mode, dc)}", forward(dl("DecomonReshape", target_shape=(-1,)), reshape_spec((-1,)), lambda: S(2), mode, dc), [R + "DecomonReshape.call"]))
            for p in ((1,), (2, 1), (1, 2), (3, 1, 2), (2, 3, 1), (1, 3, 2)):
                out.append(case(f"Permute {p} {nm(mode, dc)}", forward(dl("DecomonPermute", dims=p), permute_spec(p), lambda p=p: S(len(p)), mode, dc), [R + "DecomonPermute.call"]))
            for cls, kw in (("DecomonDropout", {"rate": 0.5}), ("DecomonInputLayer", {"shape": (3,)}), ("DecomonActivation", {"activation": "linear"})):
                out.append(case(f"{cls} {nm(mode, dc)}", forward(dl(cls, **kw), lambda layer, y: y, lambda: S(2), mode, dc), [L + cls + ".call"]))
    return out


def variance_hook(ctx, sc, layer, y):
    sh = tuple(y.shape)
    m = str(getattr(layer.mode, "value", layer.mode))
    w, x = (sh[0], dsize(sc.N)) + sh[1:], (sh[0], 2, dsize(sc.N))
    shapes = {"hybrid": [x, sh, w, sh, sh, w, sh], "ibp": [sh, sh], "affine": [x, w, sh, w, sh]}[m]
    layer.build(shapes + [sh] * (layer.nb_tensors - len(shapes)))
    layer.built = True
    v = as_tensor(layer.moving_variance)
    name = v.at(next(all_indices(v.dims))).args[0]
    ctx.hyp("moving_variance >= 0", lambda *i: T.ge(T.app(name, *i), T.ZERO), (name,))
