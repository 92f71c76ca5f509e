"""Arithmetic on relaxations (layers/utils): sum, max_, min_, sort, split, expand_dims, broadcast, permute_dimensions, pow, abs,
exp, log, frac_pos: a relaxation of y in, a relaxation of the operation applied to y out."""
from engine.tensor import con, dim
from .lib import *
from .lib import _bi
from .c06 import hull_contract, hull_ghosts, trelu
from .c09 import max_ghosts

E7 = T.const(EPS)
LU = "decomon.layers.utils"
MAXC = ("decomon.utils", "maximum", K.maximum)
MINC = ("decomon.utils", "minimum", K.minimum)
MINUSC = ("decomon.utils", "minus", K.negative, 1, False)


def run(name, spec, mode, yd, callees=(), pre=None, post=None, eps=0.0, slack=None, nops=1, low=None, **kw):
    def r(ctx):
        import importlib

        f = getattr(importlib.import_module(LU), name)
        sc = Scene(ctx)
        dom = sc.domain()
        d = yd()
        inputs, y = sc.relaxation(mode, d)
        if pre:
            pre(ctx, sc, mode, y, inputs)
        for c in callees:
            sc.op_contract(*c)
        k = dict(kw)
        if k.pop("ft", False):
            k["finetune"] = True
            k["finetune_params"] = declare("alpha", *[x for x in d])
            from .c06 import alpha_in_01

            alpha_in_01(ctx, "alpha")
        outs = f(inputs, mode=mode, perturbation_domain=dom, **k)
        x = inputs[0] if mode != "ibp" else None
        z = spec(y)
        if post:
            n = len(outs)
            if ctx.fact("number of parts", n == len(z), f"{n} parts, expected {len(z)}"):
                for i in range(n):
                    sc.check_relaxation(list(outs[i]), mode, z[i], name=f"part {i}", x=x)
        else:
            sc.check_relaxation(list(outs), mode, z, eps=eps, x=x, slack=slack(sc, y, outs, mode) if slack else None)
            if low and mode != "affine":
                # what softmax relies on: the lower bounds stay positive
                o, src = (as_tensor(t[4] if mode == "hybrid" else t[1]) for t in (outs, inputs))
                ctx.forall("positive lower bound", z.dims, lambda i: T.lnot(T.ge(T.ZERO, _bi(o, i, z))), extra=lambda i: low(ctx, src, i, kw), hints=lambda i: [T.ge(_bi(o, i, z), K.sum(src, kw["axis"]).real(i))] if low is one_term else [])

    return r


def one_term(ctx, src, i, kw):
    """a sum of positive numbers is above any of them"""
    k = kw["axis"] % src.ndim
    f = lambda m: src.real(i[:k] + (m,) + i[k:])
    if src.dims[k] == ():
        return []
    j = next(iter(all_indices((src.dims[k],))))[0][0]
    return [ctx.isolate("terms of the sum", src.dims[k][0], f, j)]


def lens(r, axis, n):
    """symbolic dims with a concrete one of size n along axis (negative axes count from the end)"""
    a = axis - 1 if axis > 0 else r + axis
    return lambda: [(con(n),) if n > 1 and i == a else () if i == a else (dim(f"s{i}"),) for i in range(r)]


def syms(r):
    return lambda: [(dim(f"s{i}"),) for i in range(r)]


def relu_pre(ctx, sc, mode, y, inputs):
    sc.op_contract("decomon.utils", "relu_", K.relu, 1)


def squeeze_max(a, red):
    return lambda y: red(y, axis=a)


# ---- exp / log / 1/x : convexity facts as axioms on the occurrences
def convex(fname, sign):
    def ax(enc):
        F = []
        fs = list(enc.fns.get(fname, ()))
        import itertools as it

        import z3

        if fname == "log":
            for (_, a, ra), (_, b, rb) in it.permutations(fs, 2):
                F.append(z3.Implies(z3.And(a[0] > 0, b[0] > 0), (ra - rb) * b[0] <= a[0] - b[0]))
        for (_, a, ra), (_, b, rb), (_, c, rc) in it.permutations(fs, 3):
            a, b, c = a[0], b[0], c[0]

            F.append(z3.Implies(z3.And(a <= b, b <= c), sign * ((rc - ra) * (b - a) - (rb - ra) * (c - a)) >= 0))
        return F

    return ax


def positive(ctx, sc, mode, y, inputs, fn=None):
    """the constant lower bounds are positive, and so is the value"""
    if mode == "affine" and fn == "log":
        # the derived lower bound is clamped to 1e-7 by the code
        ctx.hyp("y >= 1e-7", lambda *i: T.ge(T.app("y", *i), E7), ("y",))
        return
    if mode != "affine":
        ctx.hyp("l > 0", lambda *i: T.lnot(T.ge(T.ZERO, T.app("l", *i))), ("l", "y"))
    ctx.hyp("y > 0", lambda *i: T.lnot(T.ge(T.ZERO, T.app("y", *i))), ("y",))
    sc.positive_lower = True


def cvx(fname, sign):
    def pre(ctx, sc, mode, y, inputs):
        ctx.axioms.append(convex(fname, sign))
        if fname == "log":
            positive(ctx, sc, mode, y, inputs, fname)

    return pre


def exp_slack(sc, y, outs, mode):
    """the slope of the chord is divided by at least 1e-7: an error of 1e-7 exp(u), u the upper bound the code used"""

    def e(i):
        if mode == "ibp":
            return T.ZERO
        u = _bi(as_tensor(outs[1]), i, y) if mode == "hybrid" else T.fn("exp", _bi([b for s, b in sc.bounds if s > 0][-1], i, y))
        return T.mul(E7, u)

    return e


def cases():
    out = []
    AX = [(r, a) for r in (1, 2, 3) for a in list(range(1, r + 1)) + list(range(-r, 0))]
    add = lambda nm, *a, fn=None, **k: out.append(case(nm, run(*a, **k), [LU + "." + (fn or a[0])]))
    for mode in MODES:
        for r, a in AX:
            t = f"rank {r} axis {a} {mode}"
            add(f"sum {t}", "sum", lambda y, a=a: K.sum(y, a), mode, syms(r), axis=a)
            add(f"sum of positive values {t}", "sum", lambda y, a=a: K.sum(y, a), mode, syms(r), pre=positive, low=one_term, axis=a)
            add(f"expand_dims {t}", "expand_dims", lambda y, a=a: K.expand_dims(y, a), mode, syms(r), axis=a)
            for n in (1, 2):
                add(f"broadcast {n} {t}", "broadcast", lambda y, a=a, n=n: K.expand_dims(y, a) if n == 1 else K.expand_dims(K.expand_dims(y, a), a), mode, syms(r), axis=a, n=n)
            for n in (1, 2, 3, 4):
                if r == 3 and n > 2:
                    continue
                tt = f"{n} values {t}"
                add(f"max_ {tt}", "max_", lambda y, a=a: K.max(y, axis=a), mode, lens(r, a, n), [MAXC], axis=a)
                add(f"min_ {tt}", "min_", lambda y, a=a: K.min(y, axis=a), mode, lens(r, a, n), [MAXC, MINUSC], axis=a)
                add(f"split {tt}", "split", lambda y, a=a, n=n: K.split(y, n, a), mode, lens(r, a, n), post=True, axis=a)
                if n < 4:
                    add(f"sort {tt}", "sort", lambda y, a=a: K.sort(y, a), mode, lens(r, a, n), [MAXC, MINC], axis=a)
        for r in (1, 2, 3):
            add(f"pow rank {r} {mode}", "pow", lambda y: K.multiply(y, y), mode, syms(r), [(LU, "multiply", K.multiply)])
            add(f"abs rank {r} {mode}", "abs", lambda y: K.abs(y), mode, syms(r), [MINUSC, ("decomon.utils", "add", K.add)], pre=relu_pre)
    for mode in MODES:
        for r in (1, 2, 3, 4):
            for a in list(range(1, r + 1)) + list(range(-r, 0)):
                for p in range(1, r + 1):
                    add(f"permute_dimensions rank {r} axis {a} to {p} {mode}", "permute_dimensions", lambda y, a=a, p=p: K.moveaxis(y, a, p), mode, syms(r), axis=a, axis_perm=p)
        for r in (1, 2):
            add(f"frac_pos rank {r} {mode}", "frac_pos", lambda y: K.divide(1.0, y), mode, syms(r), pre=positive, eps=EPS)
            add(f"exp rank {r} {mode}", "exp", K.exp, mode, syms(r), pre=cvx("exp", 1), slack=exp_slack, low=lambda *a: [])
            add(f"log rank {r} {mode}", "log", K.log, mode, syms(r), pre=cvx("log", -1), eps=EPS)
    return out
