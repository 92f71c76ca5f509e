from oracle.lib import *


def L(cls, **kw):
    def make(rng, ys, dom, mode, dc):
        import decomon.layers.decomon_layers as A
        import decomon.layers.decomon_reshape as B

        c = getattr(A, cls, None) or getattr(B, cls)
        k = {a: (v(ys) if callable(v) else v) for a, v in kw.items()}
        l = c(perturbation_domain=dom, mode=mode, dc_decomp=dc, **k)
        build(l, ys, 3, mode, dc)
        set_weights(rng, l)
        return l

    return make


def shp(rank):
    return lambda rng: tuple(int(rng.integers(1, 5)) for _ in range(rank))


def bn(layer):
    def g(y):
        s = [1] * y.ndim
        s[layer.axis] = y.shape[layer.axis]
        r = lambda v: nn(v).reshape(s)
        z = (y - r(layer.moving_mean)) / np.sqrt(r(layer.moving_variance) + layer.epsilon)
        if layer.scale:
            z = z * r(layer.gamma)
        if layer.center:
            z = z + r(layer.beta)
        return z

    return g


for rank, axis in ((1, -1), (2, -1), (3, 1), (3, -1), (3, 2)):
    for c, s in ((True, True), (False, True), (True, False)):
        forward_cases(f"BatchNormalization rank {rank} axis {axis} center={c} scale={s}", L("DecomonBatchNormalization", axis=axis, center=c, scale=s), bn, shp(rank))
for df in ("channels_last", "channels_first"):
    for rank in (1, 2, 3):
        def fl(layer, df=df):
            return lambda y: (np.moveaxis(y, 1, -1) if df == "channels_first" and y.ndim > 2 else y).reshape(y.shape[0], -1)

        forward_cases(f"Flatten {df} rank {rank}", L("DecomonFlatten", data_format=df), fl, shp(rank), dc=True)
for frm, to in (((2, 6), (3, 4)), ((2, 6), (12,)), ((12,), (2, 3, 2)), ((2, 6), (-1, 4))):
    forward_cases(f"Reshape {frm} to {to}", L("DecomonReshape", target_shape=to), lambda l, to=to: (lambda y: y.reshape((y.shape[0],) + to)), frm, dc=True)
for p in ((1,), (2, 1), (3, 1, 2), (2, 3, 1), (1, 3, 2)):
    forward_cases(f"Permute {p}", L("DecomonPermute", dims=p), lambda l, p=p: (lambda y: np.transpose(y, (0,) + p)), shp(len(p)), dc=True)
forward_cases("Dropout", L("DecomonDropout", rate=0.5), lambda l: (lambda y: y), shp(2), dc=True)
forward_cases("linear activation", L("DecomonActivation", activation="linear"), lambda l: (lambda y: y), shp(2), dc=True)
