"""Whole models, forward: the tensors returned by clone enclose the outputs of the keras model.

The graph code (clone, convert, convert_forward, split_activation, to_decomon, ...) is executed; every decomon layer is used through its
contract (proved in C04-C11), the relaxation of the input through its own (C15)."""
import os

from engine.stubkeras import ACTS, FUNC, Input, restruct
from engine.tensor import Tensor, con, dim
from .lib import *
from .lib import _bi

NB = {"hybrid": 7, "ibp": 2, "affine": 5}


def val(e):
    return str(getattr(e, "value", e))


def layer_classes(base, prefix):
    import sys

    out = []
    for n, m in list(sys.modules.items()):
        if n.startswith(prefix):
            for c in vars(m).values():
                if isinstance(c, type) and issubclass(c, base) and "call" in c.__dict__ and c not in out and not getattr(c.__dict__["call"], "__isabstractmethod__", False):
                    out.append(c)
    return out


class ModelScene(Scene):
    def __init__(self, ctx, ball=False):
        super().__init__(ctx)
        FUNC.reset(True, self.B)
        import decomon.core as C

        scene = self

        class Some(C.BallDomain if ball else C.BoxDomain):
            _scene = scene

            def get_upper(self, x, w, b, **kw):
                return scene._dom_bound("dU", w, b, +1)

            def get_lower(self, x, w, b, **kw):
                return scene._dom_bound("dL", w, b, -1)

        self.dom = Some(eps=0.3, p=2) if ball else Some()
        self.z = Input((dsize(self.N),) if ball else (2, dsize(self.N)))
        modular.patch("decomon.models.utils", "get_input_tensors", self.input_contract)
        from decomon.layers.core import DecomonLayer

        for c in layer_classes(DecomonLayer, "decomon.layers"):
            modular.patch_attr(c, "call", self.layer_contract(c, c.__dict__["call"]))

    def input_contract(self, model, perturbation_domain, ibp=True, affine=True):
        mode = {(True, True): "hybrid", (True, False): "ibp", (False, True): "affine"}[bool(ibp), bool(affine)]
        self.same_domain(perturbation_domain, "input")
        self.ctx.fact("input dimension", dsize(self.N) == model.inputs[0].shape[1], f"{model.inputs[0].shape}")
        ins, _ = self.relaxation(mode, [self.N], y=self.xh, x=self.z, tag="@in", eager=True)
        self.ins = ins
        return self.z, ins

    def same_domain(self, d, what):
        self.ctx.fact(f"{what}: perturbation domain", d is self.dom, f"{d}")

    def is_x(self, t, what):
        t = as_tensor(t)
        self.ctx.fact(f"{what}: domain tensor", t.dims == self.z.dims and all(t.at(i) is self.z.at(i) for i in all_indices(t.dims)), "another tensor")

    def values(self, inputs, mode, what):
        """the values enclosed by the operands of a layer; tensors that are not tracked enclose arbitrary values"""
        nb = NB[mode]
        ins = list(inputs) if isinstance(inputs, (list, tuple)) else [inputs]
        if not ins or len(ins) % nb:
            raise ValueError(f"{what}: {len(ins)} tensors in mode {mode}")
        gs = [ins[k : k + nb] for k in range(0, len(ins), nb)]
        ys = [self.ghost_of(g, mode) for g in gs]
        if any(y is not None for y in ys):
            for k, (g, y) in enumerate(zip(gs, ys)):
                if not self.ctx.fact(f"{what}: operand {k} is made of the bounds of one value", y is not None, "mixed bounds"):
                    raise ValueError(f"{what}: mixed bounds")
                if mode != "ibp":
                    self.is_x(g[0], what)
            return ys, True
        return [declare(modular.fresh("free"), *as_tensor(g[-1]).dims) for g in gs], False

    def check_outputs(self, outs, mode, want, x, tag=""):
        """the bounds are those of a value equal to the expected one (or, if they were transformed, enclose it)"""
        g = self.ghost_of(outs, mode)
        if g is None or g.shape != want.shape:
            self.check_relaxation(outs, mode, want, name=f"outputs{tag}", x=x if mode != "ibp" else None)
            return
        if mode != "ibp":
            t = as_tensor(outs[0])
            self.ctx.fact(f"outputs{tag}: the domain tensor is passed through", t is x or t.dims == x.dims and all(t.at(i) is x.at(i) for i in all_indices(x.dims)), "changed")
        self.ctx.forall(f"outputs{tag}: the enclosed value is the one of the keras model", want.dims, lambda i: T.eq(_bi(g, i, want), want.real(i)))

    def layer_contract(self, cls, orig):
        def call(layer, inputs, **kw):
            mode = val(layer.mode)
            ys, known = self.values(inputs, mode, cls.__name__)
            modular.USED.add(f"{cls.__module__}.{cls.__name__}.call")
            if known:
                self.same_domain(layer.perturbation_domain, cls.__name__)
            z = spec(layer, ys)
            ins = list(inputs)
            out, _ = self.relaxation(mode, z.dims[1:], tag="@" + modular.fresh(cls.__name__), y=z, x=ins[0] if mode != "ibp" else None, eager=True)
            return out

        return call


def spec(layer, ys):
    """what the keras layer computes"""
    k = layer.original_keras_layer_class
    n = k.__name__
    if n == "InputLayer":
        return ys[0]
    if n == "Activation":
        return ACTS[layer.activation_name](ys[0])
    if hasattr(k, "_merge_function"):
        return k._merge_function(layer, ys)
    return k.call(layer, ys[0])


def value(model, x):
    """the output of the keras model at x, evaluated now"""
    FUNC.depth += 1
    try:
        out = model(x)
    finally:
        FUNC.depth -= 1
    outs = out if isinstance(out, list) else [out]
    r = []
    for t in outs:
        t = as_tensor(t)
        cell = {i: t.at(i) for i in all_indices(t.dims)}
        r.append(t)
    return r


def run(arch, method, final=None, ball=False, **kw):
    def r(ctx):
        from decomon.models.convert import clone
        from decomon.models.utils import get_ibp_affine_from_method

        sc = ModelScene(ctx, ball)
        model, ref = arch(sc)
        want = value(ref, sc.xh)
        before = value(model, sc.xh)
        layers = list(model.layers)
        names = [l.name for l in layers]
        ib, af = get_ibp_affine_from_method(method)
        k = dict(kw)
        if final:
            k.update(final_ibp=final[0], final_affine=final[1])
            ib, af = final
        dm = clone(model, method=method, perturbation_domain=sc.dom, **k)
        mode = {(True, True): "hybrid", (True, False): "ibp", (False, True): "affine"}[ib, af]
        ctx.fact("inputs of the decomon model", len(dm.inputs) == 1 and dm.inputs[0] is sc.z, f"{len(dm.inputs)}")
        ctx.fact("attributes", (dm.ibp, dm.affine) == (ib, af) and dm.perturbation_domain is sc.dom and val(dm.method) == val(method), f"{dm.ibp} {dm.affine}")
        # the domain tensor: the one of the model, or made of the constant bounds of the input (shown to be the same in C15)
        x = sc.z if not method.endswith("ibp") else (sc.ins[0] + sc.ins[1]) / 2 if ball else K.stack([sc.ins[1], sc.ins[0]], 1)
        nb = NB[mode]
        outs = list(dm.outputs)
        if ctx.fact("number of tensors returned by the decomon model", len(outs) == nb * len(want), f"{len(outs)} for {len(want)} outputs"):
            for k, w in enumerate(want):
                sc.check_outputs(outs[nb * k : nb * k + nb], mode, w, x, f" {k}" if k else "")
        ctx.fact("the keras model: names and order of its layers", all(a is b for a, b in zip(model.layers, layers)) and [l.name for l in layers] == names, f"{[l.name for l in layers]} instead of {names}")
        after = value(model, sc.xh)
        ctx.fact("number of outputs of the keras model", len(after) == len(before), "changed")
        for a, b in zip(after, before):
            if ctx.fact("the keras model: shape", a.shape == b.shape, f"{a.shape}"):
                ctx.forall("the keras model is unchanged", b.dims, lambda i: T.eq(_bi(a, i, b), b.real(i)))

    return r


# ------------------------------------------------------------------ topologies
def KL():
    import keras.layers as L

    return L


def M(i, o):
    import keras

    return keras.Model(i, o)


def u(n):
    return dsize((dim(n),))


def inp(sc):
    return Input((dsize(sc.N),))


def seq(*mk, cut=0, functional=False):
    """sequential model; the reference is the model without its last `cut` layers"""

    def arch(sc):
        import keras

        ls = [m() for m in mk]
        x = inp(sc)
        if functional:
            y = x
            outs = [x]
            for l in ls:
                y = l(y)
                outs.append(y)
            m = M(x, y)
            return m, (M(x, outs[len(ls) - cut]) if cut else m)
        m = keras.Sequential([x] + ls)
        return m, m

    return arch


dense = lambda n, act=None, **k: lambda: KL().Dense(u(n), activation=act, **k)
act = lambda a: lambda: KL().Activation(a)


def graph(f):
    def arch(sc):
        x = inp(sc)
        m = M(x, f(sc, x))
        return m, m

    return arch


def residual(sc, x):
    L = KL()
    n = dsize(sc.N)
    h = L.Dense(n, activation="relu")(x)
    y = L.Add()([x, h])
    z = L.Subtract()([L.Activation("relu")(y), h])
    return L.Dense(u("o"))(z)


def order(sc, x):
    L = KL()
    n = u("k")
    a, b = L.Dense(n)(x), L.Dense(n, activation="relu")(x)
    return L.Subtract()([L.Dense(n)(b), a])


def concat(sc, x):
    L = KL()
    a, b, c = L.Dense(2)(x), L.Dense(1, activation="relu")(x), L.Dense(2)(x)
    return L.Dense(u("o"))(L.Concatenate()([c, a, L.Activation("relu")(b)]))


def merge(kind, n):
    def f(sc, x):
        L = KL()
        k = u("k")
        br = [L.Dense(k, activation="relu" if j == 1 else None)(x) for j in range(n)]
        return L.Dense(u("o"))(getattr(L, kind)()(br))

    return f


def shared(sc, x):
    L = KL()
    d = L.Dense(dsize(sc.N), activation="relu")
    return L.Dense(u("o"))(d(d(x)))


def shared_branches(sc, x):
    L = KL()
    k = u("k")
    d = L.Dense(u("m"), activation="relu")
    a, b = L.Dense(k)(x), L.Dense(k)(x)
    return L.Subtract()([d(a), d(b)])


def nested(sc, x):
    import keras

    L = KL()
    k = u("k")
    inner = keras.Sequential([Input((k,)), L.Dense(u("m"), activation="relu"), L.Dense(u("p"))])
    return L.Dense(u("o"))(L.Activation("relu")(inner(L.Dense(k, activation="relu")(x))))


def nested_merge(sc, x):
    import keras

    L = KL()
    k = u("k")
    i = Input((k,))
    h = L.Dense(k, activation="relu")(i)
    inner = M(i, L.Subtract()([h, i]))
    y = L.Dense(k)(x)
    return L.Subtract()([inner(y), y])


def image(sc, x):
    L = KL()
    y = L.Dense(16)(x)
    y = L.Reshape((4, 4, 1))(y)
    y = L.Conv2D(2, (2, 2), activation="relu")(y)
    y = L.BatchNormalization()(y)
    y = L.Permute((3, 1, 2))(y)
    return L.Dense(u("o"))(L.Flatten()(L.Dropout(0.3)(y)))


def maxpool(sc, x):
    L = KL()
    y = L.Reshape((4, 4, 1))(L.Dense(16)(x))
    return L.Flatten()(L.MaxPooling2D((2, 2))(y))


def deep_skip(sc, x):
    """the depth of a node is not the length of one path"""
    L = KL()
    k = u("k")
    a = L.Dense(k)(x)
    b = L.Dense(k)(L.Activation("relu")(L.Dense(k)(L.Activation("relu")(a))))
    c = L.Subtract()([a, b])
    d = L.Add()([c, b, a])
    return L.Subtract()([d, c])


def two_outputs(first):
    def f(sc, x):
        L = KL()
        h = L.Dense(u("k"), activation="relu")(x)
        a = L.Dense(u("o"))(h)
        b = L.Dense(u("p"))(L.Activation("relu")(h))
        return [a, b] if first else [b, a]

    return f


def inner_outputs(sc, x):
    """outputs at several depths, of nodes of the same layer, one of them used again, the order is not the one of the calls"""
    L = KL()
    n = dsize(sc.N)
    d = L.Dense(n)
    h = L.Activation("relu")(d(x))
    y = d(h)
    return [y, h, L.Subtract()([h, y])]


def nested_outputs(sc, x):
    import keras

    L = KL()
    k = u("k")
    i = Input((k,))
    h = L.Dense(k, activation="relu")(i)
    inner = M(i, [h, L.Dense(u("m"))(h)])
    a, b = inner(L.Dense(k)(x))
    return [b, a]


ARCHS = {
    "one Dense": seq(dense("a")),
    "identity": seq(act("linear")),
    "Dense with activation": seq(dense("a", "relu"), dense("b", "sigmoid", use_bias=False), dense("c")),
    "Dense and Activation": seq(dense("a"), act("relu"), dense("b"), act("tanh")),
    "functional": seq(dense("a", "relu"), dense("b"), functional=True),
    "softmax in the last Dense": seq(dense("a", "relu"), dense("b", "softmax")),
    "residual": graph(residual),
    "order of the operands": graph(order),
    "concatenate": graph(concat),
    "shared layer": graph(shared),
    "layer shared by branches": graph(shared_branches),
    "nested model": graph(nested),
    "nested model with merges": graph(nested_merge),
    "images": graph(image),
    "max pooling": graph(maxpool),
    "two outputs": graph(two_outputs(True)),
    "two outputs of unequal depths": graph(two_outputs(False)),
    "outputs at several depths": graph(inner_outputs),
    "outputs of a nested model": graph(nested_outputs),
    "skips of several depths": graph(deep_skip),
    **{f"{k} of {n}": graph(merge(k, n)) for k, n in (("Add", 3), ("Average", 3), ("Subtract", 2), ("Maximum", 2), ("Minimum", 3), ("Multiply", 2))},
}


def softmax(how):
    def arch(sc):
        L = KL()
        x = inp(sc)
        h = L.Dense(u("a"), activation="relu")(x)
        l = L.Dense(u("b"))
        y = l(h)
        if how == "Activation":
            return M(x, L.Activation("softmax")(y)), M(x, y)
        if how == "Softmax":
            return M(x, L.Softmax()(y)), M(x, y)
        d = L.Dense(l.units, activation="softmax")
        out = d(h)
        l.kernel.assign(d.kernel)
        l.bias.assign(d.bias)
        return M(x, out), M(x, y)

    return arch


def elsewhere(sc):
    """layers that belong to another model too, called there first"""
    L = KL()
    n = dsize(sc.N)
    d, e, a = L.Dense(n, activation="relu"), L.Dense(n), L.Activation("relu")
    i = inp(sc)
    M(i, d(a(e(i))))
    x = inp(sc)
    m = M(x, e(a(d(x))))
    return m, m


def submodel(sc):
    """a part of a bigger model"""
    L = KL()
    x = inp(sc)
    h = L.Dense(u("k"), activation="relu")(x)
    h2 = L.Dense(u("m"), activation="tanh")(h)
    M(x, L.Dense(u("o"))(L.Activation("relu")(h2)))
    m = M(x, h2)
    return m, m


ARCHS["layers of another model"] = elsewhere
ARCHS["part of a bigger model"] = submodel


# ---- every graph of at most three calls of: Dense, the same Dense again, relu, difference
def graphs(k):
    opts = []
    for n in range(1, k + 1):
        o = [("d", i) for i in range(n)] + [("s", i) for i in range(n)] + [("r", i) for i in range(n)] + [("-", i, j) for i in range(n) for j in range(n)]
        opts.append(o)
    for g in itertools.product(*opts):
        used = {len(g)}
        for n in range(len(g), 0, -1):
            if n in used:
                used |= set(g[n - 1][1:])
        if used == set(range(len(g) + 1)):
            yield g


def small(g):
    def arch(sc):
        L = KL()
        n = dsize(sc.N)
        d = L.Dense(n)
        ts = [inp(sc)]
        for o in g:
            y = [ts[i] for i in o[1:]]
            ts.append({"d": lambda: L.Dense(n), "s": lambda: d, "r": lambda: L.Activation("relu")}[o[0]]()(y[0]) if o[0] != "-" else L.Subtract()(y))
        m = M(ts[0], ts[-1])
        return m, m

    return arch


def run_graphs(gs, method):
    def r(ctx):
        for g in gs:
            k = len(ctx.results)
            modular.restore()
            run(small(g), method)(ctx)
            for o in ctx.results[k:]:
                o["ob"] = f"{''.join(a[0] + ''.join(map(str, a[1:])) for a in g)}: {o['ob']}"

    return r


del ARCHS["softmax in the last Dense"]
ARCHS.update({f"final softmax in {h}": softmax(h) for h in ("Activation", "Softmax", "Dense")})
FORWARD = ("forward-ibp", "forward-affine", "forward-hybrid")


def cases():
    out = []
    P = "decomon.models."
    F = [P + "convert.clone", P + "convert.convert", P + "convert.preprocess_keras_model", P + "forward_cloning.convert_forward", P + "forward_cloning.convert_forward_functional_model",
         P + "utils.split_activation", P + "utils.get_depth_dict", P + "utils.ensure_functional_model", "decomon.layers.convert.to_decomon", "decomon.keras_utils.share_weights_and_build",
         "decomon.layers.utils.softmax_to_linear", P + "models.DecomonModel"]
    for n, a in ARCHS.items():
        for m in FORWARD:
            out.append(case(f"{n}: {m}", run(a, m), F))
    for m in FORWARD:
        for fi in ((True, True), (True, False), (False, True)):
            for ball in (False, True):
                out.append(case(f"residual: {m} final {fi}{' ball' if ball else ''}", run(ARCHS["residual"], m, fi, ball), F + [P + "utils.Convert2Mode.call", P + "utils.set_domain_input_from_ibp"]))
    for m in FORWARD:
        for kw in (dict(shared=False), dict(finetune=True), dict(slope="zero-lb"), dict(finetune_forward=True, slope="adaptative-slope")):
            for n in ("Dense with activation", "images", "shared layer"):
                out.append(case(f"{n}: {m} {kw}", run(ARCHS[n], m, **kw), F))
    gs = [g for k in (1, 2, 3) for g in graphs(k)]
    for m in FORWARD:
        if m != FORWARD[2] and os.environ.get("VERIF_TIER", "quick") == "quick":
            continue
        for j in range(0, len(gs), 48):
            out.append(case(f"graphs of at most 3 calls {j}: {m}", run_graphs(gs[j : j + 48], m), F))
    return out
