"""Merge layers and the two-input operations they are made of: relaxations of y0, y1, ... (same domain) in, relaxation of the merged value out."""
from engine.tensor import con, dim
from .lib import *
from .c06 import hull_ghosts


def relaxations(sc, mode, yds, same=True):
    """one relaxation per operand, over the same domain tensor"""
    ins, ys, x = [], [], None
    for k, yd in enumerate(yds):
        i, y = sc.relaxation(mode, yd, tag=str(k), x=x)
        if mode != "ibp":
            x = i[0]
        ins.append(i)
        ys.append(y)
    return ins, ys, x


def run_fn(module, name, spec, mode, rank, ghosts=None, nops=2, **kw):
    def r(ctx):
        import importlib

        f = getattr(importlib.import_module(module), name)
        sc = Scene(ctx)
        dom = sc.domain()
        yd = [(dim(f"s{i}"),) for i in range(rank)]
        ins, ys, x = relaxations(sc, mode, [yd] * nops)
        if ghosts:
            hull_ghosts(ctx, ghosts(*ys))
        k = dict(kw)
        if k.pop("ft", False):
            from .c06 import alpha_in_01

            k["finetune_params"] = declare("alpha", *yd)
            k["finetune"] = True
            alpha_in_01(ctx, "alpha")
        outs = f(*ins, mode=mode, perturbation_domain=dom, **k)
        sc.check_relaxation(list(outs), mode, spec(*ys), eps=EPS if ghosts else 0.0, x=x)

    return r


def layer(cls, **kw):
    def mk(**k):
        import decomon.layers.decomon_merge_layers as M

        return getattr(M, cls)(**kw, **k)

    return mk


def run_layer(make, spec, mode, yds, ghosts=None, eps=0.0, callees=()):
    def r(ctx):
        sc = Scene(ctx)
        dom = sc.domain()
        ins, ys, x = relaxations(sc, mode, yds())
        if ghosts:
            hull_ghosts(ctx, ghosts(*ys))
        for c in callees:
            sc.op_contract(*c)
        L = make(perturbation_domain=dom, mode=mode)
        flat_in = [t for i in ins for t in i]
        L.build([t.shape for t in flat_in])
        L.built = True
        outs = L(flat_in)
        sc.check_relaxation(list(outs), mode, spec(L, ys), eps=eps, x=x)

    return r


def fold(f):
    def g(L, ys):
        o = ys[0]
        for y in ys[1:]:
            o = f(o, y)
        return o

    return g


def max_ghosts(sign=1):
    def g(*ys):
        out = []
        ys = [y if sign > 0 else K.negative(y) for y in ys]
        m = ys[0]
        for y in ys[1:]:
            out += [K.subtract(y, m), K.subtract(m, y)]
            m = K.maximum(m, y)
        return out

    return g


def cases():
    out = []
    U = "decomon.utils."
    M = "decomon.layers.decomon_merge_layers."
    d = lambda r: [(dim(f"s{i}"),) for i in range(r)]
    for mode in MODES:
        for rank in (1, 2, 3):
            for n, sp, gh in (("add", K.add, None), ("subtract", K.subtract, None), ("maximum", K.maximum, max_ghosts(1)), ("minimum", K.minimum, max_ghosts(-1))):
                if gh and rank == 3:
                    continue
                for ft in (False, True) if gh else (False,):
                    out.append(case(f"{n} rank {rank} {mode}{' finetune' if ft else ''}", run_fn("decomon.utils", n, sp, mode, rank, gh, ft=ft), [U + n]))
            out.append(case(f"minus rank {rank} {mode}", run_fn("decomon.utils", "minus", K.negative, mode, rank, nops=1), [U + "minus"]))
            out.append(case(f"multiply rank {rank} {mode}", run_fn("decomon.layers.utils", "multiply", K.multiply, mode, rank), ["decomon.layers.utils.multiply"]))
        for nb in (1, 2, 3, 4):
            for rank in (1, 2):
                yds = lambda nb=nb, rank=rank: [d(rank)] * nb
                tag = f"{nb} inputs rank {rank} {mode}"
                out.append(case(f"Add {tag}", run_layer(layer("DecomonAdd"), fold(K.add), mode, yds), [M + "DecomonAdd.call"]))
                out.append(case(f"Average {tag}", run_layer(layer("DecomonAverage"), lambda L, ys: K.divide(fold(K.add)(L, ys), float(len(ys))), mode, yds), [M + "DecomonAverage.call"]))
                ops = lambda n, f, m="decomon.utils": [(m, n, f), ("decomon.utils", "minus", K.negative, 1, False)]
                out.append(case(f"Multiply {tag}", run_layer(layer("DecomonMultiply"), fold(K.multiply), mode, yds, callees=ops("multiply", K.multiply, "decomon.layers.utils")), [M + "DecomonMultiply.call"]))
                out.append(case(f"Maximum {tag}", run_layer(layer("DecomonMaximum"), fold(K.maximum), mode, yds, callees=ops("maximum", K.maximum)), [M + "DecomonMaximum.call"]))
                out.append(case(f"Minimum {tag}", run_layer(layer("DecomonMinimum"), fold(K.minimum), mode, yds, callees=ops("maximum", K.maximum)), [M + "DecomonMinimum.call"]))
                if nb == 2:
                    out.append(case(f"Subtract {tag}", run_layer(layer("DecomonSubtract"), fold(K.subtract), mode, yds), [M + "DecomonSubtract.call"]))
        for rank, axis in ((1, -1), (1, 1), (2, -1), (2, 1), (2, 2), (3, 1), (3, -1), (3, 2)):
            for nb in (2, 3):
                def yds(rank=rank, axis=axis, nb=nb):
                    base = d(rank)
                    a = axis if axis > 0 else rank
                    return [base[: a - 1] + [(dim(f"c{k}"),)] + base[a:] for k in range(nb)]

                out.append(case(f"Concatenate axis {axis} rank {rank} {nb} inputs {mode}", run_layer(layer("DecomonConcatenate", axis=axis), lambda L, ys, axis=axis: K.concatenate(ys, axis), mode, yds), [M + "DecomonConcatenate.call"]))
        for r0, r1, axes in DOTS:
            def yds(r0=r0, r1=r1, axes=axes):
                c = (dim("c"),)
                mk = lambda r, a, p: [c if i == (a if a > 0 else r + 1 + a) else (dim(f"{p}{i}"),) for i in range(1, r + 1)]
                a = (axes, axes) if isinstance(axes, int) else axes
                return [mk(r0, a[0], "p"), mk(r1, a[1], "q")]

            out.append(case(f"Dot ranks {r0},{r1} axes {axes} {mode}", run_layer(layer("DecomonDot", axes=axes), lambda L, ys, axes=axes: K.batch_dot(ys[0], ys[1], axes=axes), mode, yds), [M + "DecomonDot.call"]))
    return out


DOTS = ((1, 1, 1), (1, 1, -1), (2, 2, 1), (2, 2, 2), (2, 2, (1, 2)), (2, 2, (2, 1)), (2, 1, (1, 1)), (2, 2, -1), (2, 1, (2, 1)))
