"""Smooth activations. The hull code is verified for an arbitrary s-shaped function S with derivative P (convex on the
negative half line, concave on the positive one, non-decreasing, 1-Lipschitz); sigmoid, tanh and softsign are instances
(calculus facts, assumed), their derivatives being the terms computed by sigmoid_prime, tanh_prime, softsign_prime.
softplus, exp and softmax are verified with the convexity facts of engine/prover.py FNS."""
import numpy as np
import z3

from engine import prover as PV
from engine.tensor import con, dim
from .lib import *
from .lib import _bi

E7 = T.const(EPS)
Sf = lambda t: T.fn("S", t)
Pf = lambda t: T.fn("P", t)


def sten(x):
    return K.ew(Sf, as_tensor(x))


def pten(x):
    return K.ew(Pf, as_tensor(x))


def sshape(enc):
    """facts on every pair of arguments of S and P occurring in the query"""
    args = {}
    for n in ("S", "P"):
        for t, a, r in list(enc.fns.get(n, ())):
            args[t.args[1]] = a[0]
    if not args:
        return []
    args[T.ZERO] = z3.RealVal(0)
    F = []
    s = {t: enc.real(Sf(t)) for t in args}
    p = {t: enc.real(Pf(t)) for t in args}
    ts = list(args)
    for a in ts:
        F += [p[a] >= 0, p[a] <= 1, p[T.ZERO] >= p[a]]
    for a in ts:
        for b in ts:
            if a is b:
                continue
            x, y = args[a], args[b]
            tan = s[a] + p[a] * (y - x)
            F.append(z3.Implies(z3.And(x >= 0, y >= 0), s[b] <= tan))
            F.append(z3.Implies(z3.And(x <= 0, y <= 0), s[b] >= tan))
            F.append(z3.Implies(x >= y, z3.And(s[a] >= s[b], s[a] - s[b] <= x - y)))
            F.append(z3.Implies(x == y, z3.And(s[a] == s[b], p[a] == p[b])))
    return F


# ------------------------------------------------------------------ the tangent search
def use_grid(ctx):
    """np.linspace(0, 1, n): n values of [0, 1], the first one being 0"""
    G = dim("grid")

    def linspace(a, b, n=50, **k):
        if (float(a), float(b)) != (0.0, 1.0) or n < 1 or k:
            raise ValueError("linspace outside of its contract")
        return declare("grid", (G,))

    def fact(i):
        if i.op == "ic" and i.args[0] == 0:
            return T.eq(T.app("grid", i), T.ZERO)
        return [T.ge(T.app("grid", i), T.ZERO), T.ge(T.ONE, T.app("grid", i))]

    ctx.hyp("grid", fact, ("grid",))
    modular.patch_attr(np, "linspace", linspace)


def run_t(side):
    def r(ctx):
        import decomon.utils as U

        S = D((dim("B"),), (dim("c"),))
        u, l, y = declare("u", *S), declare("l", *S), declare("y", *S)
        ctx.axioms.append(sshape)
        use_grid(ctx)
        ctx.hyp("l <= 0 <= u, l <= y <= u", lambda *i: [
            T.ge(T.app("u", *i), T.ZERO), T.ge(T.ZERO, T.app("l", *i)), T.ge(T.app("u", *i), T.app("y", *i)), T.ge(T.app("y", *i), T.app("l", *i))], "y")
        f = U.get_t_upper if side > 0 else U.get_t_lower
        out = f(u, l, sten(l if side > 0 else u), func=sten, f_prime=pten)
        w, b = [as_tensor(o) for o in out]
        if not ctx.fact("shapes", w.shape == u.shape and b.shape == u.shape, f"{w.shape} {b.shape}"):
            return

        def goal(i):
            v = T.add(T.mul(_bi(w, i, u), y.real(i)), _bi(b, i, u))
            s = Sf(y.real(i))
            return T.ge(T.add(v, E7), s) if side > 0 else T.ge(T.add(s, E7), v)

        ctx.forall("slope >= 0", S, lambda i: T.ge(_bi(w, i, u), T.ZERO))
        ctx.forall("the line is above S on [l, u]" if side > 0 else "the line is below S on [l, u]", S, goal)

    return r


def t_contract(ctx, y):
    """y: the ghost point in the (flattened) dims of the callee"""

    def mk(name, side):
        def f(u, l, s, func=None, f_prime=None, *a, **k):
            u, l, s = as_tensor(u), as_tensor(l), as_tensor(s)
            dims = u.dims
            g = K.reshape(y, tuple(u.shape))
            nw, nb = modular.fresh(name + "_w"), modular.fresh(name + "_b")
            w, b = declare(nw, *dims), declare(nb, *dims)
            end = l if side > 0 else u

            def fact(*ids):
                i = unflat(ids, dims)
                yy, uu, ll = g.real(i), u.real(i), l.real(i)
                pre = T.land(T.ge(uu, T.ZERO), T.ge(T.ZERO, ll), T.ge(uu, yy), T.ge(yy, ll), T.eq(s.real(i), Sf(end.real(i))))
                v = T.add(T.mul(w.real(i), yy), b.real(i))
                post = T.ge(T.add(v, E7), Sf(yy)) if side > 0 else T.ge(T.add(Sf(yy), E7), v)
                return [T.implies(pre, post), T.implies(pre, T.ge(w.real(i), T.ZERO))]

            ctx.hyp(nw, fact, (nw, nb))
            return [w, b]

        modular.patch("decomon.utils", name, f)

    mk("get_t_upper", 1)
    mk("get_t_lower", -1)


# ------------------------------------------------------------------ the hull
def run_hull(mode, rank):
    def r(ctx):
        import decomon.utils as U

        sc = Scene(ctx)
        dom = sc.domain()
        yd = [(dim(f"s{i}"),) for i in range(rank)]
        ctx.axioms.append(sshape)
        inputs, y = sc.relaxation(mode, yd)
        t_contract(ctx, y)
        out = U.get_linear_hull_s_shape(inputs, func=sten, f_prime=pten, perturbation_domain=dom, mode=mode)
        hull_goals(ctx, out, y, lambda t: Sf(t))

    return r


def hull_goals(ctx, out, y, spec, shape=None):
    if not ctx.fact("four tensors", len(out) == 4, f"{len(out)}"):
        return
    wu, bu, wl, bl = [as_tensor(o) for o in out]
    for o, n in zip((wu, bu, wl, bl), ("w_u", "b_u", "w_l", "b_l")):
        if not ctx.fact(f"shape of {n}", o.shape == y.shape, f"{o.shape} expected {y.shape}"):
            return
    al = lambda w, b, i: T.add(T.mul(_bi(w, i, y), y.real(i)), _bi(b, i, y))
    ctx.forall("upper slope >= 0", y.dims, lambda i: T.ge(_bi(wu, i, y), T.ZERO))
    ctx.forall("lower slope >= 0", y.dims, lambda i: T.ge(_bi(wl, i, y), T.ZERO))
    ctx.forall("upper hull >= f(y)", y.dims, lambda i: T.ge(T.add(al(wu, bu, i), E7), spec(y.real(i))))
    ctx.forall("lower hull <= f(y)", y.dims, lambda i: T.ge(T.add(spec(y.real(i)), E7), al(wl, bl, i)))


# ------------------------------------------------------------------ instances
DERIV = {
    "sigmoid": lambda t: T.mul(T.fn("sigmoid", t), T.sub(T.ONE, T.fn("sigmoid", t))),
    "tanh": lambda t: T.sub(T.ONE, T.mul(T.fn("tanh", t), T.fn("tanh", t))),
    "softsign": lambda t: T.recip(T.mul(T.add(T.ONE, T.tabs(t)), T.add(T.ONE, T.tabs(t)))),
}
PRIME = {"sigmoid": "sigmoid_prime", "tanh": "tanh_prime", "softsign": "softsign_prime"}


def run_prime(name):
    def r(ctx):
        import decomon.utils as U

        x = declare("x", (dim("B"),), (dim("c"),))
        p = getattr(U, PRIME[name])(x)
        ctx.forall(f"{PRIME[name]} is the derivative of {name}", x.dims, lambda i: T.eq(p.real(i), DERIV[name](x.real(i))))

    return r


def which(ctx, func, f_prime):
    """the s-shaped function denoted by (func, f_prime): an obligation"""
    probe = declare("probe#")
    t = probe.real(())
    v = as_tensor(func(probe)).real(())
    for n in DERIV:
        if v is T.fn(n, t):
            ctx.prove(f"f_prime is the derivative of {n}", T.eq(as_tensor(f_prime(probe)).real(()), DERIV[n](t)))
            return n
    ctx.fail("func is one of sigmoid, tanh, softsign", T.pp(v)[:200])
    return None


def s_contract(ctx, sc, y, holder):
    if EXACT.on:
        return
    def f(inputs, func=None, f_prime=None, perturbation_domain=None, mode="hybrid", *a, **k):
        n = which(ctx, func, f_prime)
        holder.append(n)
        sc.own_domain(perturbation_domain, mode, "s-shape hull")
        sc.check_relaxation(list(inputs), str(getattr(mode, "value", mode)), y, name="hull precondition")
        dims = y.dims
        ns = [modular.fresh(z) for z in ("hwu", "hbu", "hwl", "hbl")]
        wu, bu, wl, bl = [declare(z, *dims) for z in ns]

        def fact(*ids):
            i = unflat(ids, dims)
            t = y.real(i)
            v = T.fn(n, t)
            return [
                T.ge(T.add(T.mul(wu.real(i), t), bu.real(i), E7), v),
                T.ge(T.add(v, E7), T.add(T.mul(wl.real(i), t), bl.real(i))),
                T.ge(wu.real(i), T.ZERO), T.ge(wl.real(i), T.ZERO)]

        ctx.hyp("s-shape hull", fact, tuple(ns))
        return [wu, bu, wl, bl]

    modular.patch("decomon.utils", "get_linear_hull_s_shape", f)


def act(name):
    def mk(**k):
        from decomon.layers.decomon_layers import DecomonActivation

        return DecomonActivation(name, **k)

    return mk


SPEC = {
    "sigmoid": K.sigmoid, "tanh": K.tanh, "softsign": K.softsign, "softplus": K.softplus, "exponential": K.exp,
}


def run_act(name, mode, rank, identity=False, finetune=False):
    def hook(ctx, sc, layer, y):
        s_contract(ctx, sc, y, [])

    yd = lambda: [(dim(f"s{i}"),) for i in range(rank)]
    if name in DERIV:
        eps = EPS
        ctxhook = hook
    else:
        eps, ctxhook = EPS, None
    return forward(act(name), lambda layer, y: SPEC[name](y), yd, mode, identity=identity, eps=eps, ctxhook=ctxhook, finetune=finetune)


def softplus_axioms(enc):
    F = []
    fs = list(enc.fns.get("softplus", ()))
    for t, a, r in fs:
        p = enc.real(T.fn("sigmoid", t.args[1]))
        for t2, a2, r2 in fs:
            if t2 is not t:
                F.append(r2 >= r + p * (a2[0] - a[0]))  # convexity; the derivative is the sigmoid, in (0, 1)
        F += [p >= 0, p <= 1]
    return F


def run_softplus_hull(slope, finetune):
    def r(ctx):
        import decomon.utils as U

        S = D((dim("B"),), (dim("c"),))
        u, l, y = declare("u", *S), declare("l", *S), declare("y", *S)
        ctx.axioms.append(softplus_axioms)
        ctx.hyp("l <= y <= u", lambda *i: [T.ge(T.app("u", *i), T.app("y", *i)), T.ge(T.app("y", *i), T.app("l", *i))], ("y", "u", "l"))
        kw = {}
        if finetune:
            kw["finetune"] = [declare("au", *S[1:]), declare("al", *S[1:])]
            for n in ("au", "al"):
                ctx.hyp(n, lambda *i, n=n: [T.ge(T.app(n, *i), T.ZERO), T.ge(T.ONE, T.app(n, *i))], (n,))
        out = U.get_linear_softplus_hull(u, l, slope, **kw)
        hull_goals(ctx, out, y, lambda t: T.fn("softplus", t))

    return r


def softplus_contract(ctx, sc, layer, y):
    from .c06 import hull_contract

    hull_contract(ctx, y, spec=lambda t: T.fn("softplus", t), fn=("decomon.utils", "get_linear_softplus_hull"), name="softplus hull")


def act_slope(name, slope):
    def mk(**k):
        from decomon.layers.decomon_layers import DecomonActivation

        return DecomonActivation(name, slope=slope, **k)

    return mk


LU = "decomon.layers.utils"


def run_exponential(mode, rank):
    def hook(ctx, sc, layer, y):
        sc.op_contract(LU, "exp", K.exp, 1)

    return forward(act("exponential"), lambda layer, y: K.exp(y), lambda: [(dim(f"s{i}"),) for i in range(rank)], mode, ctxhook=hook)


def run_softmax(mode, rank, axis):
    """over the contracts of exp, sum, 1/x, expand_dims and multiply (C10, C09)"""

    def hook(ctx, sc, layer, y):
        ax = lambda k, d=-1: k.get("axis", d)
        sc.op_contract(LU, "exp", K.exp, 1, gives_positive=True)
        sc.op_contract(LU, "sum", lambda t, *a, **k: K.sum(t, a[0] if a else ax(k)), 1, needs_positive=True, gives_positive=True, kwspec=True)
        sc.op_contract(LU, "frac_pos", lambda t: K.divide(1.0, t), 1, needs_positive=True)
        sc.op_contract(LU, "expand_dims", lambda t, *a, **k: K.expand_dims(t, a[0] if a else ax(k)), 1, kwspec=True)
        sc.op_contract(LU, "multiply", K.multiply, 2)

    def run(ctx):
        yd = [(dim(f"s{i}"),) for i in range(rank)]
        sc = Scene(ctx)
        dom = sc.domain()
        inputs, y = sc.relaxation(mode, yd)
        hook(ctx, sc, None, y)
        import decomon.layers.activations as A

        if axis == -1:
            outs = act("softmax")(perturbation_domain=dom, mode=mode)(list(inputs))
        else:
            outs = A.softmax(list(inputs), perturbation_domain=dom, mode=mode, axis=axis)
        e = K.exp(y)
        S = K.sum(e, axis)
        z = e * K.expand_dims(1.0 / S, axis)
        # 0 <= softmax <= 1: the sum is above each of its (positive) terms
        k = axis % y.ndim

        def low(i):
            at = lambda m: e.real(i[:k] + (m,) + i[k + 1:])
            return [ctx.isolate("terms of the sum", y.dims[k][0], at, i[k][0])]

        sc.check_relaxation(list(outs), mode, z, x=inputs[0] if mode != "ibp" else None, extra=low)

    return run


SLOPES = ("volume-slope", "same-slope", "zero-lb", "one-lb")


def cases():
    out = []
    U = "decomon.utils."
    out.append(case("get_t_upper", run_t(1), [U + "get_t_upper"]))
    out.append(case("get_t_lower", run_t(-1), [U + "get_t_lower"]))
    for n in DERIV:
        out.append(case(f"derivative of {n}", run_prime(n), [U + PRIME[n]]))
    for mode in MODES:
        for rank in (1, 2):
            out.append(case(f"s-shape hull rank {rank} {mode}", run_hull(mode, rank), [U + "get_linear_hull_s_shape"]))
    A = "decomon.layers.activations."
    for n in DERIV:
        for mode in MODES:
            for rank in (1, 2):
                out.append(case(f"{n} rank {rank} {mode}", run_act(n, mode, rank), [A + n, A + "linear_hull_s_shape"]))
    for mode in MODES:
        for rank in (1, 2):
            out.append(case(f"exponential rank {rank} {mode}", run_exponential(mode, rank), [A + "exponential"]))
            for axis in (-1, 1, 2)[: rank + 1]:
                out.append(case(f"softmax rank {rank} axis {axis} {mode}", run_softmax(mode, rank, axis), [A + "softmax"]))
    for s in SLOPES:
        for ft in (False, True):
            out.append(case(f"softplus hull {s}{' finetune' if ft else ''}", run_softplus_hull(s, ft), [U + "get_linear_softplus_hull"]))
        for mode in MODES:
            out.append(case(f"softplus {s} {mode}", forward(act_slope("softplus", s), lambda layer, y: K.softplus(y), lambda: [(dim("s0"),), (dim("s1"),)], mode,
                                                           eps=EPS, ctxhook=softplus_contract), [A + "softplus", "decomon.layers.utils.softplus_"]))
    return out
