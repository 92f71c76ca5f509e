"""Backward layers of the linear keras layers: the returned affine form w.y + b is exactly the layer, on the flattened tensors, from
the keras layer or from its decomon version."""
from engine.stubkeras import FUNC, Input
from engine.tensor import con, dim
from .lib import *
from .lib import _bi
from .c05 import CONFIGS
from .c08 import S, bn_spec, flatten_spec, permute_spec, reshape_spec


def check_affine(ctx, outs, y, z, name="out", exact=True, eps=0.0, diag=False):
    """outs = [w_u, b_u, w_l, b_l]: on the flattened tensors w_u.y+b_u >= z >= w_l.y+b_l (both equal to z when exact); with diag,
    w may be the diagonal alone"""
    y, z = as_tensor(y), as_tensor(z)
    B = y.shape[0]
    n_in = dsize(tuple(a for d in y.dims[1:] for a in d))
    n_out = dsize(tuple(a for d in z.dims[1:] for a in d))
    if not ctx.fact(f"{name}: number of tensors", len(outs) == 4, f"{len(outs)} tensors, expected 4"):
        return
    yf, zf = K.reshape(y, (B, n_in)), K.reshape(z, (B, n_out))
    e = T.const(eps)
    for side, (w, b) in (("upper", outs[:2]), ("lower", outs[2:])):
        w, b = as_tensor(w), as_tensor(b)
        bs = (1, B)
        d = diag and w.ndim == 2 and n_in == n_out
        want = (n_in,) if d else (n_in, n_out)
        if not ctx.fact(f"{name}: {side} shapes", tuple(w.shape[1:]) == want and tuple(b.shape[1:]) == (n_out,) and w.shape[0] in bs and b.shape[0] in bs,
                        f"w {w.shape} b {b.shape}, expected {(B,) + want}"):
            continue
        v = (w * yf if d else K.sum(w * K.expand_dims(yf, -1), 1)) + b
        if exact:
            ctx.forall(f"{name}: {side} w.y+b == layer(y)", zf.dims, lambda i: T.eq(_bi(v, i, zf), zf.real(i)))
        elif EXACT.on:
            up = side == "upper"
            ctx.forall(f"{name}: {side} w.y+b {'<=' if up else '>='} layer(y)", zf.dims, lambda i: T.ge(T.add(zf.real(i), e), _bi(v, i, zf)) if up else T.ge(T.add(_bi(v, i, zf), e), zf.real(i)))
        elif side == "upper":
            ctx.forall(f"{name}: w_u.y+b_u >= layer(y)", zf.dims, lambda i: T.ge(T.add(_bi(v, i, zf), e), zf.real(i)))
        else:
            ctx.forall(f"{name}: w_l.y+b_l <= layer(y)", zf.dims, lambda i: T.ge(T.add(zf.real(i), e), _bi(v, i, zf)))


def backward(mk_layer, mk_backward, ydims, spec, mode, hook=None, sizes=None, flat=False):
    """mk_layer(**decomon keywords) -> keras or decomon layer; built on the keras shapes / the tensors of the mode"""

    def r(ctx):
        sc = Scene(ctx)
        dom = sc.domain()
        yd = ydims()
        inputs, y = sc.relaxation(mode, yd)
        L, dec = mk_layer(dict(perturbation_domain=dom, mode=mode))
        if dec:
            L.build([t.shape for t in inputs])
            L.built = True
        else:
            FUNC.reset(True, y.dims[0])
            x0 = Input(y.shape[1:])
            if L.__class__.__name__ == "InputLayer":
                L = x0._keras_history.operation
            else:
                L, _ = mk_layer({})
                L(x0)
        if hook:
            hook(ctx, L)
        z = spec(L, y)
        if dec:
            L.input = inputs
            L.output = L(inputs) if sizes is None else [KT(z.shape)]
        bl = mk_backward(L, dict(mode=mode, perturbation_domain=dom))
        outs = bl([flat_input(t, y, j, mode, len(inputs)) for j, t in enumerate(inputs)] if flat else inputs)
        check_affine(ctx, list(outs), y, z)

    return r


def flat_input(t, y, j, mode, n):
    """the tensors crown gives: the axes of the value are flattened"""
    t = as_tensor(t)
    if mode != "ibp" and j == 0:
        return t
    k = t.ndim - y.ndim
    sh = t.shape[: 1 + k] + (dsize(tuple(a for d in y.dims[1:] for a in d)),)
    return K.reshape(t, sh)


def KT(shape):
    from keras import KerasTensor

    return KerasTensor(shape)


def both(cls, dcls=None, **kw):
    """layer makers: the keras layer and its decomon version"""

    def k(_):
        import keras.layers as L

        return getattr(L, cls)(**{a: (v() if callable(v) else v) for a, v in kw.items()}), False

    def d(dk):
        import decomon.layers.decomon_layers as L
        import decomon.layers.decomon_reshape as R

        c = getattr(L, "Decomon" + cls, None) or getattr(R, "Decomon" + cls)
        return c(**{a: (v() if callable(v) else v) for a, v in kw.items()}, **dk), True

    return (("keras", k), ("decomon", d))


def bw(cls):
    def mk(L, kw):
        import decomon.backward_layers.backward_layers as B

        return getattr(B, cls)(L, **kw)

    return mk


def variance(ctx, L):
    v = as_tensor(L.moving_variance)
    name = v.at(next(all_indices(v.dims))).args[0]
    ctx.hyp("moving_variance >= 0", lambda *i: T.ge(T.app(name, *i), T.ZERO), (name,))


def dense_spec(layer, y):
    z = K.matmul(y, layer.kernel)
    return z + layer.bias if layer.use_bias else z


def conv_spec(layer, y):
    z = K.conv(y, layer.kernel, layer.strides, layer.padding, layer.data_format, layer.dilation_rate)
    if layer.use_bias:
        z = z + K.reshape(layer.bias, (1, 1, 1, -1) if layer.data_format == "channels_last" else (1, -1, 1, 1))
    return z


def cases():
    out = []
    P = "decomon.backward_layers.backward_layers."
    U = "decomon.backward_layers.utils.get_identity_lirpa"
    BI = "decomon.keras_utils.BatchedIdentityLike.call"

    def add(name, makers, bcls, yd, spec, modes=MODES, fns=(), hook=None, only=None):
        for mode in modes:
            for src, mk in makers:
                if only and src not in only:
                    continue
                for fl in (False, True) if src == "keras" and len(yd()) > 1 else (False,):
                    out.append(case(f"{name} {mode} from {src}{' flattened input' if fl else ''}", backward(mk, bw(bcls), yd, spec, mode, hook, flat=fl), [P + bcls + ".call"] + list(fns)))

    u = lambda: dsize((dim("units"),))
    for ub in (True, False):
        for mid in ((), (2,), (3,), (2, 2)):
            add(f"Dense use_bias={ub} {len(mid) + 1} axes {mid}", both("Dense", units=u, use_bias=ub), "BackwardDense",
                lambda mid=mid: [(con(k),) for k in mid] + [(dim("c"),)], dense_spec, fns=[P + "BackwardDense.build"])
    for rank in (1, 2, 3):
        for df in ("channels_last", "channels_first"):
            add(f"Flatten {df} rank {rank}", both("Flatten", data_format=df), "BackwardFlatten", lambda rank=rank: S(rank), flatten_spec(df), fns=[U, BI])
        add(f"Dropout rank {rank}", both("Dropout", rate=0.3), "BackwardDropout", lambda rank=rank: S(rank), lambda L, y: y, fns=[U, BI])
    for rank in (1, 2, 3):
        add(f"InputLayer rank {rank}", both("InputLayer", shape=(3,)), "BackwardInputLayer", lambda rank=rank: S(rank), lambda L, y: y, fns=[U, BI])
        add(f"Activation linear rank {rank}", both("Activation", activation="linear"), "BackwardActivation", lambda rank=rank: S(rank), lambda L, y: y,
            fns=[P + "BackwardActivation.build", U, BI])
    for rank, axis in ((1, -1), (1, 1), (2, -1), (2, 1), (3, 1), (3, 3), (3, -2)):
        for c in (True, False):
            for s in (True, False):
                add(f"BatchNormalization rank {rank} axis {axis} center={c} scale={s}", both("BatchNormalization", axis=axis, center=c, scale=s), "BackwardBatchNormalization",
                    lambda rank=rank: S(rank), bn_spec(axis, c, s), hook=variance, fns=[BI])
    for p in ((1,), (2, 1), (1, 2), (3, 1, 2), (2, 3, 1), (1, 3, 2)):
        add(f"Permute {p}", both("Permute", dims=p), "BackwardPermute", lambda p=p: S(len(p)), permute_spec(p), fns=[U, BI])
    for frm, to in (((2, 6), (3, 4)), ((2, 6), (12,)), ((12,), (2, 3, 2)), ((2, 6), (-1, 4)), ((4,), (4,))):
        add(f"Reshape {frm} to {to}", both("Reshape", target_shape=to), "BackwardReshape", lambda frm=frm: [(con(k),) for k in frm], reshape_spec(to), fns=[U, BI])
    for cfg in CONFIGS:
        for hw in ((3, 4), (4, 3), (3, 3)):
            def yd(cfg=cfg, hw=hw):
                s = [(con(k),) for k in hw]
                c = [(dim("c"),)]
                return s + c if cfg["data_format"] == "channels_last" else c + s

            add(f"Conv2D {cfg} image {hw}", both("Conv2D", filters=lambda: dsize((dim("filters"),)), **cfg), "BackwardConv2D", yd, conv_spec,
                fns=["decomon.backward_layers.utils_conv.get_toeplitz", "decomon.backward_layers.backward_layers.BackwardConv2D.get_affine_components"])
    return out
