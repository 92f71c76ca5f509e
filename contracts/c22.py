"""Tuning coefficients. Whatever vector an optimizer proposes, its projection by the constraint of the variable is admissible and the bounds
stay sound; resetting gives back the initial coefficients; freezing leaves trainable exactly what is not frozen."""
from engine.tensor import dim
from .lib import *
from .lib import _bi
from . import c06, c07, c13, c16, c17
from .c06 import SLOPES, alpha_in_01, hull_contract, hull_ghosts
from .c12 import KT, check_affine
from .c13 import diag_contract, flattened, s_ghosts

ACTIVATIONS = ("relu", "softplus", "sigmoid", "tanh", "softsign", "exponential", "linear")
SPECS = dict(c07.SPEC, relu=K.relu, linear=lambda y: y)


# ------------------------------------------------------------------ constraints
def within(ctx, name, w, lo=None, hi=None):
    if lo is not None:
        ctx.forall(f"{name}: at least {lo}", w.dims, lambda i: T.ge(w.real(i), T.const(lo)))
    if hi is not None:
        ctx.forall(f"{name}: at most {hi}", w.dims, lambda i: T.ge(T.const(hi), w.real(i)))


def run_constraint(mk, rank, lo, hi, keep=None):
    def r(ctx):
        import decomon.layers.utils as LU

        w = declare("w", *[(dim(f"n{k}"),) for k in range(rank)])
        v = as_tensor(mk(LU)(w))
        if ctx.fact("shape", v.shape == w.shape, f"{v.shape}"):
            within(ctx, "projection", v, lo, hi)
            if keep:
                ctx.forall("admissible values are kept", w.dims, lambda i: T.implies(keep(w.real(i)), T.eq(v.real(i), w.real(i))))

    return r


def run_grid(rank):
    def r(ctx):
        import decomon.layers.utils as LU

        w = declare("w", *[(dim(f"n{k}"),) for k in range(rank)])
        v = as_tensor(LU.ClipAlphaGrid()(w))
        if ctx.fact("shape", v.shape == w.shape, f"{v.shape}"):
            ctx.forall("coefficients: non negative", w.dims, lambda i: T.ge(v.real(i), T.ZERO))
            s = as_tensor(K.sum(K.clip(w, 0.0, 1.0), 0))
            d = as_tensor(K.maximum(s, 1.0))
            # the coefficients are those of the projection on [0, 1] divided by something that is at least their sum and at least one
            c = as_tensor(K.clip(w, 0.0, 1.0))
            ctx.forall("coefficients times the scale", w.dims, lambda i: T.eq(T.mul(v.real(i), d.real(i[1:])), c.real(i)))
            ctx.forall("scale: at least the sum", d.dims, lambda i: T.land(T.ge(d.real(i), s.real(i)), T.ge(d.real(i), T.ONE)))

    return r


# ------------------------------------------------------------------ layers
def coefficients(ctx, layer):
    """arbitrary values of [0, 1]: what the constraints give (run_projection)"""
    for w in layer.trainable_weights:
        n = modular.fresh("coefficient")
        w.assign(declare(n, *w.dims))
        alpha_in_01(ctx, n)


def projection(ctx, layer, many):
    """the coefficients start in [0, 1], the projection of an arbitrary vector is in [0, 1], a reset gives the first values back"""
    ws = list(layer.trainable_weights)
    ctx.fact("coefficients", bool(ws) == many, f"{len(ws)} variables")
    init = initial(ctx, ws)
    for k, w in enumerate(ws):
        v = declare(modular.fresh("proposed"), *w.dims)
        p = as_tensor(w.constraint(v)) if w.constraint is not None else v
        within(ctx, f"coefficient {k} after projection", p, 0, 1)
        w.assign(v)
    check_reset(ctx, layer, ws, init)


def check_reset(ctx, layer, ws, inits):
    layer.reset_finetuning()
    for k, w in enumerate(ws):
        cur = as_tensor(w.value)
        ctx.forall(f"coefficient {k} after a reset: the initial one", cur.dims, lambda i: T.eq(cur.real(i), inits[k].real(i)))


def initial(ctx, ws):
    """the values of the coefficients of a new layer, those of the initializer unless some were assigned"""
    out = []
    for k, w in enumerate(ws):
        if w.assigned:
            v = as_tensor(w.value)
            within(ctx, f"coefficient {k} once built", v, 0, 1)
        else:
            i = w.initializer
            n = i if isinstance(i, str) else type(i).__name__.lower()
            ctx.fact(f"coefficient {k}: initialized with zeros or ones", n in ("ones", "zeros"), f"{i}")
            v = as_tensor((K.zeros if n == "zeros" else K.ones)(w.shape))
        out.append(v)
    return out


def forward_layer(ctx, sc, name, slope, mode, rank):
    from decomon.layers.decomon_layers import DecomonActivation

    inputs, y = sc.relaxation(mode, [(dim(f"s{i}"),) for i in range(rank)])
    layer = DecomonActivation(name, perturbation_domain=sc.domain(), mode=mode, slope=slope, finetune=True)
    layer.build([t.shape for t in inputs])
    layer.built = True
    return layer, inputs, y


def backward_layer(ctx, sc, name, slope, mode, rank):
    import decomon.backward_layers.backward_layers as B
    import keras.layers as KL

    inputs, y = sc.relaxation(mode, [(dim(f"s{i}"),) for i in range(rank)])
    L = KL.Activation(name)
    L.build(y.shape)
    L.input = L.output = KT(y.shape)
    L.built = True
    layer = B.BackwardActivation(L, slope=slope, finetune=True, mode=mode, perturbation_domain=sc.domain())
    layer.build([t.shape for t in inputs])
    layer.built = True
    return layer, inputs, y


def run_projection(make, name, slope, mode, rank, many):
    def r(ctx):
        layer, _, _ = make(ctx, Scene(ctx), name, slope, mode, rank)
        projection(ctx, layer, many)

    return r


def run_forward(name, slope, mode, rank):
    def r(ctx):
        sc = Scene(ctx)
        layer, inputs, y = forward_layer(ctx, sc, name, slope, mode, rank)
        if name == "relu":
            hull_contract(ctx, y)
        elif name == "exponential":
            sc.op_contract(c07.LU, "exp", K.exp, 1)
        elif name == "softplus":
            hull_ghosts(ctx, [y], spec=lambda t: T.fn("softplus", t), fn=("decomon.utils", "get_linear_softplus_hull"), name="softplus hull")
        elif name in c07.DERIV:
            c07.s_contract(ctx, sc, y, [])
        coefficients(ctx, layer)
        outs = list(layer(inputs))
        sc.check_relaxation(outs, mode, SPECS[name](y), eps=c06.EPS, x=inputs[0] if mode != "ibp" else None)

    return r


def run_backward(name, slope, mode, rank):
    def r(ctx):
        sc = Scene(ctx)
        layer, inputs, y = backward_layer(ctx, sc, name, slope, mode, rank)
        gs = [y] if rank == 1 else [flattened(y), y]
        if name == "relu":
            hull_ghosts(ctx, gs)
        elif name == "softplus":
            hull_ghosts(ctx, gs, spec=lambda t: T.fn("softplus", t), fn=("decomon.utils", "get_linear_softplus_hull"), name="softplus hull")
        elif name != "linear":
            s_ghosts(ctx, sc, gs, mode)
        diag_contract()
        coefficients(ctx, layer)
        outs = layer(inputs)
        check_affine(ctx, list(outs), y, SPECS[name](y), exact=name == "linear", eps=c06.EPS)

    return r


# ------------------------------------------------------------------ models
def is_alpha(w):
    return w.constraint is not None


def run_model(arch, method, **kw):
    def r(ctx):
        from decomon.models.convert import clone

        sc = c17.CrownScene(ctx) if method.startswith("crown") else c16.ModelScene(ctx)
        model, _ = arch(sc)
        dm = clone(model, method=method, perturbation_domain=sc.dom, **kw)
        ids = lambda: {id(w) for w in dm.trainable_weights}
        all_ = ids()
        alphas = {id(w) for w in dm.trainable_weights if is_alpha(w)}
        net = all_ - alphas
        own = {id(w) for w in model.weights}
        ctx.fact("the network has weights", bool(net), "none")
        ctx.fact("coefficients of a tuned model", not alphas & own and (not alphas if not kw.get("finetune") else alphas or method == "forward-ibp"), f"{len(alphas)}")
        state = set()

        def check(what):
            want = (set() if "w" in state else net) | (set() if "a" in state else alphas)
            got = ids()
            ctx.fact(f"{what}: trainable variables", got == want, f"{len(got)} trainable variables, expected {len(want)} ({len(got & net)} of the {len(net)} of the network, {len(got & alphas)} of the {len(alphas)} coefficients)")

        check("once built")
        seq = ["freeze_weights", "freeze_weights", "unfreeze_weights", "freeze_alpha", "freeze_alpha", "freeze_weights", "unfreeze_alpha", "unfreeze_alpha", "freeze_alpha",
               "unfreeze_weights", "unfreeze_alpha", "unfreeze_weights"]
        for j, op in enumerate(seq):
            getattr(dm, op)()
            (state.discard if op.startswith("un") else state.add)(op.split("_")[1][0])
            check(f"step {j}, {op}")
        old = {id(w): as_tensor(w.value) for w in dm.trainable_weights}
        ws = [w for w in dm.trainable_weights if is_alpha(w)]
        for w in ws:
            w.assign(declare(modular.fresh("tuned"), *w.dims))
        dm.reset_finetuning()
        for k, w in enumerate(dm.trainable_weights):
            cur = as_tensor(w.value)
            if is_alpha(w):
                ctx.forall(f"coefficient {k} after a reset: one", cur.dims, lambda i: T.eq(cur.real(i), T.ONE))
            else:
                ctx.forall(f"weight {k} after a reset: unchanged", cur.dims, lambda i: T.eq(cur.real(i), old[id(w)].real(i)))

    return r


def bn(sc, x):
    L = c16.KL()
    k = c16.u("k")
    y = L.BatchNormalization()(L.Dense(k, activation="relu")(x))
    y = L.BatchNormalization(center=False)(L.Activation("sigmoid")(y))
    y = L.BatchNormalization(scale=False)(y)
    return L.Dense(c16.u("o"), use_bias=False)(y)


def conv(sc, x):
    L = c16.KL()
    y = L.Reshape((3, 3, 1))(L.Dense(9)(x))
    y = L.Conv2D(2, (2, 2), activation="relu")(y)
    y = L.Conv2D(1, (2, 1), use_bias=False)(y)
    return L.Dense(c16.u("o"))(L.Flatten()(L.Activation("softplus")(y)))


def cases():
    out = []
    U = "decomon.layers.utils."
    one = lambda t: T.land(T.ge(t, T.ZERO), T.ge(T.ONE, t))
    for r in (1, 2, 3):
        out.append(case(f"clip rank {r}", run_constraint(lambda L: L.ClipAlpha(), r, 0, 1, one), [U + "ClipAlpha.__call__"]))
        out.append(case(f"clip, two constraints rank {r}", run_constraint(lambda L: L.MultipleConstraint(L.ClipAlpha(), L.ClipAlpha()), r, 0, 1, one), [U + "MultipleConstraint.__call__"]))
        out.append(case(f"clip, one constraint rank {r}", run_constraint(lambda L: L.MultipleConstraint(None, L.ClipAlpha()), r, 0, 1, one), [U + "MultipleConstraint.__call__"]))
        if r > 1:
            out.append(case(f"grid rank {r}", run_grid(r), [U + "ClipAlphaGrid.__call__"]))
    D = "decomon.layers.decomon_layers.DecomonActivation."
    P = "decomon.backward_layers.backward_layers.BackwardActivation."
    for name in ACTIVATIONS:
        for mode in MODES:
            for s in SLOPES if name in ("relu", "softplus") else SLOPES[:1]:
                if name == "softplus" and s == "adaptative-slope":
                    continue
                for rank in (1, 2):
                    t = f"{name} {s} {mode} rank {rank}" if len(SLOPES) and name in ("relu", "softplus") else f"{name} {mode} rank {rank}"
                    out.append(case(f"forward {t}", run_forward(name, s, mode, rank), [D + "build", D + "call"]))
                    out.append(case(f"projection, forward {t}", run_projection(forward_layer, name, s, mode, rank, mode != "ibp" and name != "linear"), [D + "build", D + "reset_finetuning"]))
                    out.append(case(f"projection, backward {t}", run_projection(backward_layer, name, s, mode, rank, name != "linear"), [P + "build", P + "reset_finetuning"]))
                    if name != "exponential":
                        out.append(case(f"backward {t}", run_backward(name, s, mode, rank), [P + "build", P + "call"]))
    L = "decomon.layers.decomon_layers."
    F = [f"decomon.models.models.DecomonModel.{n}" for n in ("freeze_weights", "unfreeze_weights", "freeze_alpha", "unfreeze_alpha", "reset_finetuning")]
    F += [L + c + "." + n for c in ("DecomonDense", "DecomonConv2D", "DecomonBatchNormalization") for n in ("freeze_weights", "unfreeze_weights")]
    F += [c + n for c in (D, P) for n in ("freeze_alpha", "unfreeze_alpha")]
    F += ["decomon.backward_layers.backward_layers." + c + "." + n for c in ("BackwardDense", "BackwardConv2D", "BackwardBatchNormalization") for n in ("freeze_weights", "unfreeze_weights")]
    archs = {"several Dense": c16.ARCHS["Dense with activation"], "normalized": c16.graph(bn), "images": c16.graph(conv)}
    for n, a in archs.items():
        for m in ("forward-ibp", "forward-affine", "forward-hybrid", "crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid"):
            for ft in (False, True):
                out.append(case(f"model {n}: {m}{' finetune' if ft else ''}", run_model(a, m, finetune=ft), F))
    return out
