"""ReLU: the linear hull encloses relu on [lower, upper] for every slope strategy (and every finetuning alpha in [0,1]);
relu_ / DecomonActivation turn it into a sound relaxation of relu(y)."""
from engine.tensor import con, dim
from .lib import *
from .lib import _bi

SLOPES = ("volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb")


def trelu(t):
    return T.tmax(t, T.ZERO)


def alpha_in_01(ctx, *names):
    for n in names:
        ctx.hyp(f"{n} in [0,1]", lambda *ids, n=n: [T.ge(T.app(n, *ids), T.ZERO), T.ge(T.ONE, T.app(n, *ids))], (n,))


def run_hull(slope, finetune):
    def r(ctx):
        import decomon.utils as U

        S = D((dim("B"),), (dim("c"),))
        u, l, t = declare("u", *S), declare("l", *S), declare("t", *S)
        ctx.hyp("lower <= t <= upper", lambda *i: [T.ge(T.app("u", *i), T.app("t", *i)), T.ge(T.app("t", *i), T.app("l", *i))], "t")
        kw = {}
        if finetune:
            kw["finetune"] = declare("alpha", *S[1:])
            alpha_in_01(ctx, "alpha")
        out = U.get_linear_hull_relu(u, l, slope, **kw)
        if not ctx.fact("four tensors", len(out) == 4, f"{len(out)}"):
            return
        wu, bu, wl, bl = [as_tensor(o) for o in out]
        e = T.const(EPS)
        for o, n in zip((wu, bu, wl, bl), ("w_u", "b_u", "w_l", "b_l")):
            if not ctx.fact(f"shape of {n}", o.shape == u.shape, f"{o.shape}"):
                return
        al = lambda w, b, i: T.add(T.mul(_bi(w, i, u), t.real(i)), _bi(b, i, u))
        ctx.forall("upper hull >= relu(t)", S, lambda i: T.ge(T.add(al(wu, bu, i), e), trelu(t.real(i))))
        ctx.forall("lower hull <= relu(t)", S, lambda i: T.ge(T.add(trelu(t.real(i)), e), al(wl, bl, i)))
        ctx.forall("upper slope >= 0", S, lambda i: T.ge(_bi(wu, i, u), T.ZERO))
        ctx.forall("lower slope >= 0", S, lambda i: T.ge(_bi(wl, i, u), T.ZERO))

    return r


def finetune_pre(ctx, name, ft, upper):
    for k, ft in enumerate(ft if isinstance(ft, (list, tuple)) else [ft]):
        ft = as_tensor(ft)
        ctx.fact(f"{name}: one finetuning parameter per neuron ({k})", tuple(ft.shape) == tuple(upper.shape[1:]), f"{ft.shape} for bounds {upper.shape}")
        ctx.forall(f"{name}: finetune {k} in [0,1]", ft.dims, lambda i: T.land(T.ge(ft.real(i), T.ZERO), T.ge(T.ONE, ft.real(i))))


def hull_contract(ctx, y, spec=trelu, eps=EPS, fn=("decomon.utils", "get_linear_hull_relu"), pre=None, name="relu hull"):
    """callee contract: for lower <= y <= upper the hull encloses spec(y), slopes are non-negative"""
    if EXACT.on:
        return

    def f(upper, lower, slope, *a, **kw):
        upper, lower = as_tensor(upper), as_tensor(lower)
        dims = y.dims
        ctx.forall(f"{name} called with an enclosure of y: upper", dims, lambda i: T.ge(_bi(upper, i, y), y.real(i)))
        ctx.forall(f"{name} called with an enclosure of y: lower", dims, lambda i: T.ge(y.real(i), _bi(lower, i, y)))
        if "finetune" in kw:
            finetune_pre(ctx, name, kw["finetune"], upper)
        ns = [modular.fresh(n) for n in ("hwu", "hbu", "hwl", "hbl")]
        wu, bu, wl, bl = [declare(n, *dims) for n in ns]
        e = T.const(eps)

        def fact(*ids):
            i = unflat(ids, dims)
            t = y.real(i)
            v = spec(t)
            return [
                T.ge(T.add(T.mul(wu.real(i), t), bu.real(i), e), v),
                T.ge(T.add(v, e), T.add(T.mul(wl.real(i), t), bl.real(i))),
                T.ge(wu.real(i), T.ZERO),
                T.ge(wl.real(i), T.ZERO),
            ]

        ctx.hyp(name, fact, tuple(ns))
        return [wu, bu, wl, bl]

    modular.patch(fn[0], fn[1], f)


def hull_ghosts(ctx, ghosts, spec=trelu, eps=EPS, fn=("decomon.utils", "get_linear_hull_relu"), name="relu hull"):
    """callee contract instantiated at several values: for every ghost t of the right shape, lower <= t <= upper => the
    hull encloses spec(t); non-negative slopes"""
    if EXACT.on:
        return
    ghosts = [as_tensor(g) for g in ghosts]
    e = T.const(eps)

    def f(upper, lower, slope, *a, **kw):
        upper, lower = as_tensor(upper), as_tensor(lower)
        gs = [g for g in ghosts if tuple(g.shape) == tuple(upper.shape)]
        dims = gs[0].dims if gs else upper.dims
        ok = T.TRUE
        if "finetune" in kw:
            finetune_pre(ctx, name, kw["finetune"], upper)
        ns = [modular.fresh(n) for n in ("hwu", "hbu", "hwl", "hbl")]
        wu, bu, wl, bl = [declare(n, *dims) for n in ns]

        def fact(*ids):
            i = unflat(ids, dims)
            like = gs[0] if gs else upper
            out = [T.ge(wu.real(i), T.ZERO), T.ge(wl.real(i), T.ZERO)]
            for g in gs:
                t = _bi(g, i, like)
                pre = T.land(T.ge(_bi(upper, i, like), t), T.ge(t, _bi(lower, i, like)))
                v = spec(t)
                up, lo = T.add(T.mul(wu.real(i), t), bu.real(i), e), T.add(T.mul(wl.real(i), t), bl.real(i))
                out.append(T.implies(pre, T.land(T.ge(up, v), T.ge(T.add(v, e), lo))))
            return out

        ctx.hyp(name, fact, tuple(ns))
        return [wu, bu, wl, bl]

    modular.patch(fn[0], fn[1], f)


def run_layer(slope, mode, dc, rank, finetune, via):
    def r(ctx):
        import decomon.utils as U
        from decomon.layers.decomon_layers import DecomonActivation

        sc = Scene(ctx)
        yd = [(dim(f"s{i}"),) for i in range(rank)]
        dom = sc.domain()
        inputs, y = sc.relaxation(mode, yd, dc=dc)
        hull_contract(ctx, y)
        kw = {}
        if via == "relu_":
            if finetune:
                kw["finetune"] = declare("alpha", *yd)
                alpha_in_01(ctx, "alpha")
            outs = U.relu_(inputs, dc_decomp=dc, perturbation_domain=dom, mode=mode, slope=slope, **kw)
        else:
            layer = DecomonActivation("relu", perturbation_domain=dom, mode=mode, dc_decomp=dc, slope=slope, finetune=finetune)
            if finetune:
                layer.build([i.shape for i in inputs])
                layer.built = True
                if hasattr(layer, "beta_l_f"):
                    w = as_tensor(layer.beta_l_f)
                    nm = w.at(next(all_indices(w.dims))).args[0] if True else None
                    alpha_in_01(ctx, nm)
            outs = layer(inputs)
        z = K.relu(y)
        sc.check_relaxation(list(outs), mode, z, dc=dc, eps=EPS, x=inputs[0] if mode != "ibp" else None)

    return r


def cases():
    out = []
    H = ["decomon.utils.get_linear_hull_relu"]
    F = ["decomon.utils.relu_", "decomon.layers.activations.relu", "decomon.layers.decomon_layers.DecomonActivation.call",
         "decomon.layers.decomon_layers.DecomonActivation.build"]
    for s in SLOPES:
        for ft in (False, True):
            out.append(case(f"hull {s}{' finetune' if ft else ''}", run_hull(s, ft), H))
    for mode in MODES:
        for dc in (False, True):
            for via in ("relu_", "layer"):
                for s in SLOPES if via == "layer" else SLOPES[:1]:
                    for ft in (False, True):
                        out.append(case(f"{via} {s}{' finetune' if ft else ''} {nm(mode, dc)}", run_layer(s, mode, dc, 2, ft, via), F))
    return out
