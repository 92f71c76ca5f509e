"""Random keras models cloned to decomon models: the outputs enclose the model at points of the domain."""
from oracle.lib import *

i = lambda rng, a, b: int(rng.integers(a, b + 1))


def KL():
    return keras().layers


def initw(rng, model):
    for w in model.weights:
        s = tuple(w.shape)
        v = rng.normal(size=s) * rng.choice([0.4, 1.0])
        if "variance" in w.name:
            v = abs(v) + 0.05
        w.assign(v)


# ---- architectures: f(rng) -> keras model with one flat input
def seq_dense(rng, acts=("relu",), depth=2, act_layer=None):
    L = KL()
    n = i(rng, 1, 3)
    m = [L.Input((n,))]
    for d in range(depth):
        a = acts[d % len(acts)]
        sep = act_layer if act_layer is not None else rng.random() < 0.5
        m.append(L.Dense(i(rng, 1, 4), activation=None if sep else a, use_bias=rng.random() < 0.8))
        if sep:
            m.append(L.Activation(a))
    m.append(L.Dense(i(rng, 1, 3)))
    return keras().Sequential(m)


def conv(rng):
    L = KL()
    df = "channels_last"  # channels_first convolutions do not run on this CPU
    h, w, c = i(rng, 3, 4), i(rng, 3, 4), i(rng, 1, 2)
    sh = (h, w, c) if df == "channels_last" else (c, h, w)
    m = [L.Input((h * w * c,)), L.Reshape(sh)]
    m.append(L.Conv2D(i(rng, 1, 2), (2, i(rng, 2, 3)), data_format=df, padding=("valid", "same")[i(rng, 0, 1)], activation="relu" if rng.random() < 0.5 else None))
    if rng.random() < 0.5:
        m.append(L.BatchNormalization(axis=-1 if df == "channels_last" else 1))
    m.append(L.Activation("relu"))
    m.append(L.Flatten(data_format=df))
    m.append(L.Dense(i(rng, 1, 3)))
    return keras().Sequential(m)


def maxpool(rng):
    L = KL()
    m = [L.Input((16,)), L.Reshape((4, 4, 1)), L.Conv2D(1, (2, 2), padding="same"), L.MaxPooling2D((2, 2)), L.Flatten(), L.Dense(2)]
    return keras().Sequential(m)


def affine_layers(rng):
    L = KL()
    n = i(rng, 1, 2) * 2
    m = [L.Input((n,)), L.Dense(4), L.BatchNormalization(center=rng.random() < 0.7, scale=rng.random() < 0.7), L.Dropout(0.2), L.Reshape((2, 2)), L.Permute((2, 1)),
         L.Activation("relu"), L.Flatten(), L.Dense(2)]
    return keras().Sequential(m)


def identity(rng):
    L = KL()
    x = L.Input((i(rng, 1, 3),))
    return keras().Model(x, L.Activation("linear")(x))


def merge(rng, kind=None):
    L = KL()
    x = L.Input((i(rng, 1, 3),))
    n = i(rng, 1, 3)
    k = kind or ("Add", "Subtract", "Average", "Maximum", "Minimum", "Multiply", "Concatenate")[i(rng, 0, 6)]
    nb = 2 if k in ("Subtract",) else i(rng, 2, 3)
    br = [L.Dense(n, activation="relu" if rng.random() < 0.5 else None)(x) for _ in range(nb)]
    y = getattr(L, k)()(br)
    return keras().Model(x, L.Dense(i(rng, 1, 2))(y))


def residual(rng):
    L = KL()
    n = i(rng, 1, 3)
    x = L.Input((n,))
    h = L.Dense(n, activation="relu")(x)
    y = L.Add()([x, h])
    z = L.Subtract()([L.Activation("relu")(y), h])
    return keras().Model(x, L.Dense(2)(z))


def shared(rng):
    L = KL()
    n = i(rng, 1, 3)
    x = L.Input((n,))
    d = L.Dense(n, activation="relu" if rng.random() < 0.5 else None)
    return keras().Model(x, L.Dense(2)(d(d(x))))


def nested(rng):
    L = KL()
    n, m = i(rng, 1, 3), i(rng, 1, 3)
    inner = keras().Sequential([L.Input((m,)), L.Dense(2, activation="relu"), L.Dense(3)])
    x = L.Input((n,))
    h = L.Dense(m, activation="relu")(x)
    y = inner(h)
    return keras().Model(x, L.Dense(2)(L.Activation("relu")(y)))


def same_names(rng):
    """an enclosed model, some layers of which have the names of layers of the enclosing one"""
    L = KL()
    n = i(rng, 1, 3)
    inner = keras().Sequential([L.Input((n,)), L.Dense(n, name="a"), L.Activation("relu", name="b"), L.Dense(n, name="c")], name="d")
    x = L.Input((n,))
    h = L.Activation("relu", name="b")(L.Dense(n, name="a")(x)) if rng.random() < 0.5 else L.Dense(n, name="a")(x)
    y = inner(h)
    return keras().Model(x, L.Dense(2, name="c")(y))


def two_outputs(rng):
    L = KL()
    x = L.Input((i(rng, 1, 3),))
    h = L.Dense(3, activation="relu")(x)
    a = L.Dense(2)(h)
    b = L.Dense(2)(L.Activation("relu")(h))
    o = [a, b] if rng.random() < 0.5 else [b, a]
    return keras().Model(x, o)


def inner_outputs(rng):
    L = KL()
    n = i(rng, 1, 3)
    x = L.Input((n,))
    d = L.Dense(n)
    h = L.Activation("relu")(d(x))
    y = d(h)
    return keras().Model(x, [[y, h], [h, y], [y, h, L.Subtract()([h, y])]][i(rng, 0, 2)])


def soft(rng):
    L = KL()
    x = L.Input((i(rng, 1, 3),))
    h = L.Dense(i(rng, 1, 3), activation="relu")(x)
    k = i(rng, 0, 2)
    y = L.Dense(i(rng, 2, 3), activation="softmax" if k == 0 else None)(h)
    return keras().Model(x, y if k == 0 else L.Softmax()(y) if k == 1 else L.Activation("softmax")(y))


def elsewhere(rng):
    """layers that belong to another model too, a part of a bigger model"""
    L = KL()
    n = i(rng, 1, 3)
    d, e, a = L.Dense(n, activation="relu"), L.Dense(n), L.Activation("relu")
    j = L.Input((n,))
    keras().Model(j, d(a(e(j))))
    x = L.Input((n,))
    h = e(a(d(x)))
    keras().Model(x, L.Dense(2)(h))
    return keras().Model(x, h)


def smooth(rng):
    return seq_dense(rng, acts=("sigmoid", "tanh", "softsign", "softplus")[i(rng, 0, 3) :][:1], depth=i(rng, 1, 2))


METHODS = ("crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid", "forward-ibp", "forward-affine", "forward-hybrid")
MODE = {(True, True): "hybrid", (True, False): "ibp", (False, True): "affine"}


def build_model(rng, arch):
    keras().backend.clear_session()
    m = arch(rng)
    initw(rng, m)
    return m


def truth(model, pts):
    """values of the model at each point"""
    out = []
    for p in pts:
        v = model(tt(p), training=False)
        out.append([nn(t) for t in (v if isinstance(v, (list, tuple)) else [v])])
    return out


def reference(model):
    """the model without a softmax at its end"""
    L = KL()
    l = model.layers[-1]
    a = l.get_config().get("activation")
    if isinstance(l, L.Softmax) or isinstance(l, L.Activation) and a == "softmax":
        return keras().Model(model.inputs, l.input)
    if a == "softmax":
        d = L.Dense(l.units, use_bias=l.use_bias)
        m = keras().Model(model.inputs, d(l.input))
        d.set_weights(l.get_weights())
        return m
    return model


def run_clone(name, arch, method, kinds=("box", "ball_2", "ball_inf", "ball_1"), final=None, slope=None, slack=2e-6, finetune=False, hook=None, npts=10, back=False):
    def run(rng):
        from decomon.models.convert import clone
        from decomon.models.utils import get_ibp_affine_from_method

        model = build_model(rng, arch)
        n = model.inputs[0].shape[1]
        dom = Dom(rng, kinds[i(rng, 0, len(kinds) - 1)], n=n, batch=i(rng, 1, 2))
        kw = {}
        ib, af = get_ibp_affine_from_method(method)
        if final:
            kw = dict(final_ibp=final[0], final_affine=final[1])
            ib, af = final
        if slope:
            kw["slope"] = slope
        pts = dom.points(npts)
        # reference: the model without its final softmax, if any
        ref = reference(model)
        vals = truth(ref, pts)
        before = truth(model, pts[:2])
        names, ws = [l.name for l in model.layers], [nn(w) for w in model.weights]
        C = None
        if back:
            o, q = vals[0][0].shape[1], i(rng, 1, 3)
            C = rnd(rng, len(dom.x), o, q)
            kw["back_bounds"] = [KL().Input((o, q))]
            vals = [[np.einsum("bo,boq->bq", v[0], C)] for v in vals]
        dm = clone(model, method=method, perturbation_domain=dom.domain, finetune=finetune, **kw)
        if names != [l.name for l in model.layers]:
            raise Violation(f"{name}: clone renamed the layers of the model", before=str(names), after=str([l.name for l in model.layers]))
        for v, w in zip(model.weights, ws):
            close(nn(v), w, f"{name}: weights of the model after clone", 0)
        for a, b in zip(truth(model, pts[:2]), before):
            for u_, v_ in zip(a, b):
                close(u_, v_, f"{name}: value of the model after clone", 1e-7)
        if hook:
            hook(rng, dm, model)
        outs = dm(tt(dom.x)) if C is None else dm([tt(dom.x), tt(C)])
        outs = list(outs) if isinstance(outs, (list, tuple)) else [outs]
        mode = MODE[ib, af]
        nb = {"hybrid": 7, "ibp": 2, "affine": 5}[mode]
        k = len(vals[0])
        if len(outs) != nb * k:
            raise Violation(f"{name}: {len(outs)} output tensors, expected {nb * k}")
        data = dict(x=dom.x, domain=dom.kind, eps=getattr(dom, "eps", None), weights=[nn(w) for w in model.weights], config=str([l.get_config() for l in model.layers])[:3000])
        for j in range(k):
            enclose(outs[nb * j : nb * (j + 1)], mode, pts, [v[j] for v in vals], f"{name}: output {j}", slack, data, x=dom.x)

    return run


def enclose(o, mode, pts, vals, what, slack, data, x=None):
    cmp = close if POINT["on"] else leq
    x_ = u = wu = bu = l = wl = bl = None
    a = [nn(t) for t in o]
    if mode == "hybrid":
        x_, u, wu, bu, l, wl, bl = a
    elif mode == "ibp":
        u, l = a
    else:
        x_, wu, bu, wl, bl = a
    if x_ is not None and x is not None:
        close(x_, x, what + ": domain tensor", **data)
    for p, v in zip(pts, vals):
        v = v.reshape(len(v), -1)
        d = dict(data, point=p, value=v)
        if u is not None:
            cmp(v, u.reshape(v.shape), what + ": value above the upper constant", slack, **d)
            cmp(l.reshape(v.shape), v, what + ": value below the lower constant", slack, **d)
        if wu is not None:
            if wu.ndim == 2:
                wu, wl = [np.einsum("bi,ij->bij", w, np.eye(w.shape[1])) for w in (wu, wl)]
            w_u, w_l = wu.reshape(wu.shape[0], p.shape[1], -1), wl.reshape(wl.shape[0], p.shape[1], -1)
            cmp(v, np.einsum("bn,bno->bo", p, w_u) + bu.reshape(bu.shape[0], -1), what + ": value above the upper affine bound", slack, **d)
            cmp(np.einsum("bn,bno->bo", p, w_l) + bl.reshape(bl.shape[0], -1), v, what + ": value below the lower affine bound", slack, **d)


SINGLE = {"dense": seq_dense, "conv": conv, "affine layers": affine_layers, "identity": identity, "shared": shared, "smooth": smooth}
MERGES = {"merge": merge, "residual": residual}
