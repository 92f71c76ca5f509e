"""Backward activation layers: affine forms in the input of the activation that enclose the activation of every value enclosed by the
input relaxation; every slope strategy, every finetuning parameter in [0, 1]."""
from engine.tensor import con, dim
from .lib import *
from .lib import _bi
from .c06 import SLOPES, alpha_in_01, hull_ghosts, trelu
from .c07 import DERIV, which
from .c12 import KT, bw, check_affine

SPEC = {"relu": K.relu, "sigmoid": K.sigmoid, "tanh": K.tanh, "softsign": K.softsign, "softplus": K.softplus}


def flattened(y):
    return K.reshape(y, (y.shape[0], dsize(tuple(a for d in y.dims[1:] for a in d))))


def diag_contract():
    """BatchedDiagLike: the last axis becomes a diagonal (verified below for batches of 1 to 4)"""
    import decomon.keras_utils as U

    if modular.OFF:
        return
    modular.PATCHED = True

    def call(self, x):
        from engine.tensor import Tensor, deltas

        modular.USED.add("decomon.keras_utils.BatchedDiagLike")
        x = as_tensor(x)
        if x.ndim != 2:
            raise ValueError("BatchedDiagLike: contract for (batch, n)")
        return Tensor(x.dims + (x.dims[-1],), lambda i: T.mul(deltas(i[1], i[2]), x.real(i[:2])))

    modular.patch_attr(U.BatchedDiagLike, "call", call)


def run_diag(batch):
    def r(ctx):
        import decomon.keras_utils as U

        x = declare("x", (con(batch),) if batch > 1 else (), (dim("n"),))
        o = U.BatchedDiagLike()(x)
        n = x.shape[1]
        if ctx.fact("shape", tuple(o.shape) == (batch, n, n), f"{o.shape}"):
            like = as_tensor(x)
            from engine.tensor import Tensor, deltas

            z = Tensor(x.dims + (x.dims[-1],), lambda i: T.mul(deltas(i[1], i[2]), x.real(i[:2])))
            ctx.forall("diagonal of the last axis", z.dims, lambda i: T.eq(_bi(o, i, z), z.real(i)))

    return r


def s_ghosts(ctx, sc, ys, mode0):
    """get_linear_hull_s_shape at the value with the shape of its input"""
    if EXACT.on:
        return

    def f(inputs, func=None, f_prime=None, perturbation_domain=None, mode="hybrid", *a, **k):
        n = which(ctx, func, f_prime)
        m = str(getattr(mode, "value", mode))
        sh = tuple(as_tensor(inputs[-1]).shape)
        g = [y for y in ys if tuple(y.shape) == sh]
        if not ctx.fact("s-shape hull called on the input of the activation", bool(g), f"shape {sh}") or n is None:
            raise ValueError("precondition")
        y = g[0]
        sc.own_domain(perturbation_domain, mode, "s-shape hull")
        sc.check_relaxation(list(inputs), m, y, name="hull precondition")
        dims = y.dims
        ns = [modular.fresh(z) for z in ("hwu", "hbu", "hwl", "hbl")]
        wu, bu, wl, bl = [declare(z, *dims) for z in ns]
        e = T.const(EPS)

        def fact(*ids):
            i = unflat(ids, dims)
            t = y.real(i)
            v = T.fn(n, t)
            return [T.ge(T.add(T.mul(wu.real(i), t), bu.real(i), e), v), T.ge(T.add(v, e), T.add(T.mul(wl.real(i), t), bl.real(i)))]

        ctx.hyp("s-shape hull", fact, tuple(ns))
        return [wu, bu, wl, bl]

    modular.patch("decomon.utils", "get_linear_hull_s_shape", f)


def run(name, slope, finetune, rank, mode, src):
    def r(ctx):
        import keras.layers as KL
        import decomon.layers.decomon_layers as DL
        import decomon.backward_layers.backward_layers as B

        sc = Scene(ctx)
        dom = sc.domain()
        yd = [(dim(f"s{i}"),) for i in range(rank)]
        inputs, y = sc.relaxation(mode, yd)
        if src == "keras":
            L = KL.Activation(name)
            L.build(y.shape)
            L.input = L.output = KT(y.shape)
        else:
            L = DL.DecomonActivation(name, perturbation_domain=dom, mode=mode)
            L.build([t.shape for t in inputs])
            L.input = L.output = [KT(t.shape) for t in inputs]
        L.built = True
        yf = flattened(y)
        gs = [y] if rank == 1 else [yf, y]
        if name == "relu":
            hull_ghosts(ctx, gs)
        elif name == "softplus":
            hull_ghosts(ctx, gs, spec=lambda t: T.fn("softplus", t), fn=("decomon.utils", "get_linear_softplus_hull"), name="softplus hull")
        else:
            s_ghosts(ctx, sc, gs, mode)
        diag_contract()
        bl = B.BackwardActivation(L, slope=slope, finetune=finetune, mode=mode, perturbation_domain=dom)
        bl.build([t.shape for t in inputs])
        bl.built = True
        for w in bl.trainable_weights:
            t = as_tensor(w)
            alpha_in_01(ctx, t.at(next(all_indices(t.dims))).args[0])
        outs = bl(inputs)
        check_affine(ctx, list(outs), y, SPEC[name](y), exact=False, eps=EPS)

    return r


def cases():
    out = []
    P = "decomon.backward_layers.backward_layers.BackwardActivation."
    A = "decomon.backward_layers.activations.backward_"
    for b in (1, 2, 3, 4):
        out.append(case(f"BatchedDiagLike batch {b}", run_diag(b), ["decomon.keras_utils.BatchedDiagLike.call"]))
    for mode in MODES:
        for rank in (1, 2, 3):
            for ft in (False, True):
                for n in SPEC:
                    for s in SLOPES if n in ("relu", "softplus") else SLOPES[:1]:
                        if n == "softplus" and s == "adaptative-slope":
                            continue
                        for src in ("keras", "decomon") if s == SLOPES[0] else ("keras",):
                            t = f" {s}" if n in ("relu", "softplus") else ""
                            out.append(case(f"{n}{t}{' finetune' if ft else ''} rank {rank} {mode} from {src}", run(n, s, ft, rank, mode, src),
                                            [P + "build", P + "call", A + n, "decomon.backward_layers.activations.get"]))
    return out
