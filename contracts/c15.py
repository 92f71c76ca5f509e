"""Composition of bounds: chaining two sets of affine bounds, closing them on the domain, changing the kind of bounds, and the
relaxation of the model input itself."""
from engine.tensor import Tensor, con, deltas, dim
from .lib import *
from .lib import _bi
from .c13 import diag_contract


def forms(ctx, y, z, tag, diag=(False, False)):
    """arbitrary affine forms of y (batch, n) that enclose z (batch, o), both known as the flattened values"""
    B, n, o = y.dims[0], y.dims[1], z.dims[1]
    outs = []
    facts = []
    for side, d in zip("ul", diag):
        w = declare(f"w{side}{tag}", B, n) if d else declare(f"w{side}{tag}", B, n, o)
        b = declare(f"b{side}{tag}", B, o)
        v = w * y if d else K.sum(w * K.expand_dims(y, -1), 1)
        if EXACT.on:
            b = z - v
        v = v + b
        outs += [w, b]
        facts.append((side, v, b))

    if EXACT.on:
        return outs

    def fact(*ids):
        i = unflat(ids, z.dims)
        cs = []
        for side, v, b in facts:
            e = _bi(v, i, z)
            cs.append(T.ge(e, z.real(i)) if side == "u" else T.ge(z.real(i), e))
        return cs

    ctx.hyp(f"forms{tag}", fact, [b.name for _, _, b in facts] + [z.name])
    return outs


def outer(h, o, diag):
    """arbitrary affine forms of h and their values: whatever they enclose lies between these values"""
    outs = []
    vs = []
    for side, d in zip("ul", diag):
        w = declare(f"w{side}C", *h.dims) if d else declare(f"w{side}C", *h.dims, o)
        b = declare(f"b{side}C", h.dims[0], o)
        outs += [w, b]
        vs.append((w * h if d else K.sum(w * K.expand_dims(h, -1), 1)) + b)
    return outs, vs[0], vs[1]


def between(ctx, outs, y, up, lo):
    """the upper (lower) affine form of y is above (below) the value of the upper (lower) outer form"""
    if not ctx.fact("number of tensors", len(outs) == 4, f"{len(outs)}"):
        return
    wu, bu, wl, bl = [as_tensor(t) for t in outs]
    want = (y.shape[0], y.shape[1], up.shape[1])
    if not ctx.fact("shapes", tuple(wu.shape) == tuple(wl.shape) == want and tuple(bu.shape) == tuple(bl.shape) == tuple(up.shape), f"{[t.shape for t in (wu, bu, wl, bl)]} expected {want}"):
        return
    f = lambda w, b: K.sum(w * K.expand_dims(y, -1), 1) + b
    u, l = f(wu, bu), f(wl, bl)
    ge = T.eq if EXACT.on else T.ge
    ctx.forall("upper form above the upper outer form", up.dims, lambda i: ge(_bi(u, i, up), up.real(i)))
    ctx.forall("lower form below the lower outer form", lo.dims, lambda i: ge(lo.real(i), _bi(l, i, lo)))


def run_merge(da, db, as_layer):
    def r(ctx):
        import decomon.models.crown as MC

        diag_contract()
        B = (dim("B"),)
        h_ = (dim("h"),)
        n = h_ if any(da) else (dim("n"),)
        o = h_ if any(db) else (dim("o"),)
        y, h = declare("y", B, n), declare("h", B, h_)
        A = forms(ctx, y, h, "A", da)
        C, up, lo = outer(h, o, db)
        if as_layer:
            L = MC.MergeWithPrevious(*([] if as_layer == 1 else [A[0].shape, C[0].shape]))
            outs = L(A + C)
        else:
            outs = MC.merge_with_previous(A + C)
        between(ctx, outs, y, up, lo)
        if not any(da) and not any(db):
            f = L.compute_output_shape if as_layer else MC.merge_with_previous_compute_output_shape
            same(ctx, f([t.shape for t in A + C]), outs)

    return r


def same(ctx, shapes, outs):
    got = [tuple(s) for s in shapes]
    want = [tuple(as_tensor(t).shape) for t in outs]
    ctx.fact("compute_output_shape: shapes of the outputs", got == want, f"{got}, expected {want}")


def run_fuse(mode, diag):
    def r(ctx):
        import decomon.models.crown as MC

        diag_contract()
        sc = Scene(ctx)
        h_ = (dim("h"),)
        o = h_ if diag else (dim("o"),)
        ins, y = sc.relaxation(mode, [h_])
        C, up, lo = outer(y, o, (diag, diag))
        L = MC.Fuse(mode)
        outs = list(L(ins + C))
        if mode == "ibp":
            ctx.fact("ibp mode: bounds unchanged", len(outs) == 4 and all(same_el(a, b) for a, b in zip(outs, C)), "changed")
        else:
            between(ctx, outs, sc.xh, up, lo)
        if not diag:
            same(ctx, L.compute_output_shape([t.shape for t in ins + C]), outs)

    return r


def same_el(a, b):
    a, b = as_tensor(a), as_tensor(b)
    return a.shape == b.shape and all(_bi(a, i, b) is b.real(i) for i in all_indices(b.dims))


def run_close(mode, kind):
    """Convert2BackwardMode: affine bounds in the domain variable -> bounds of the mode"""

    def r(ctx):
        import decomon.core as C
        import decomon.models.crown as MC

        sc = Scene(ctx)
        o = (dim("o"),)
        z = declare("z", sc.B, o)
        F = forms(ctx, sc.xh, z, "F")
        if mode == "ibp":
            # the input tensors are the constant bounds of the point
            u, l = (sc.xh, sc.xh) if EXACT.on else (declare("xu", sc.B, sc.N), declare("xl", sc.B, sc.N))
            ctx.hyp("x^ within the constant bounds", lambda b, n: [T.ge(u.real(((b,), (n,))), sc.xh.real(((b,), (n,)))), T.ge(sc.xh.real(((b,), (n,))), l.real(((b,), (n,))))], ("xh",))
            dom = {"box": C.BoxDomain(), "ball": C.BallDomain(eps=0.3, p=2), "any": sc.domain()}[kind]
            ins = [u, l]
        else:
            dom = sc.domain()
            ins, _ = sc.relaxation(mode, [sc.N], y=sc.xh)
        outs = list(MC.Convert2BackwardMode(mode, dom)(ins + F))
        if mode == "ibp":
            if ctx.fact("two bounds", len(outs) == 2 and all(tuple(t.shape) == tuple(z.shape) for t in outs), f"{[t.shape for t in outs]}"):
                up, lo = (K.sum(w * K.expand_dims(sc.xh, -1), 1) + b for w, b in (F[:2], F[2:]))
                ge = T.eq if EXACT.on else T.ge
                ctx.forall("upper bound above the upper form", up.dims, lambda i: ge(_bi(outs[0], i, up), up.real(i)))
                ctx.forall("lower bound below the lower form", lo.dims, lambda i: ge(lo.real(i), _bi(outs[1], i, lo)))
            return
        sc.check_relaxation(outs, mode, z, x=ins[0] if mode != "ibp" else None)

    return r


def run_convert(mf, mt, rank, dim_given):
    def r(ctx):
        import decomon.models.utils as MU

        sc = Scene(ctx)
        yd = [(dim(f"s{i}"),) for i in range(rank)]
        if not dim_given:
            yd = [sc.N]
        ins, y = sc.relaxation(mf, yd)
        L = MU.Convert2Mode(mode_from=mf, mode_to=mt, perturbation_domain=sc.domain(), **(dict(input_dim=dsize(sc.N)) if dim_given else {}))
        outs = list(L(ins))
        sc.check_relaxation(outs, mt, y, x=ins[0] if mf != "ibp" and mt != "ibp" else None)
        if mf != "ibp" or mt == "ibp":
            same(ctx, L.compute_output_shape([t.shape for t in ins]), outs)

    return r


def run_domain_from_ibp(mf, mt, kind):
    """after a conversion from constant bounds, the domain tensor is the one the bounds of the input were made of"""

    def r(ctx):
        import decomon.core as C
        import decomon.models.utils as MU

        f = getattr(MU, "set_domain_input_from_ibp", None)
        if f is None:
            ctx.fact("no such helper", True)
            return
        sc = Scene(ctx)
        dom = C.BoxDomain() if kind == "box" else C.BallDomain(eps=0.3, p=2)
        x = declare("x", sc.B, (con(2),), sc.N) if kind == "box" else declare("x", sc.B, sc.N)
        u, l = (x[:, 1], x[:, 0]) if kind == "box" else (x + 0.3, x - 0.3)
        out, _ = sc.relaxation(mt, [(dim("o"),)])
        r = f(list(out), [u, l] if mf == "ibp" else ["unused"], C.ForwardMode(mf), C.ForwardMode(mt), dom)
        k = 0
        if mt != "ibp" and mf == "ibp":
            k = 1
            if ctx.fact("shape of the domain tensor", tuple(r[0].shape) == tuple(x.shape), f"{r[0].shape}"):
                ctx.forall("domain tensor", x.dims, lambda i: T.eq(_bi(r[0], i, x), x.real(i)))
        ctx.fact("bounds unchanged", len(r) == len(out) and all(a is b for a, b in zip(r[k:], out[k:])), "changed")

    return r


class Dmn:
    """domains whose input tensors get_input_tensors makes, with an arbitrary point x^ of the domain"""

    KINDS = ("box", "ball_inf", "ball_2", "ball_1")


def run_inputs(kind, ibp, affine):
    def r(ctx):
        import decomon.core as C
        import decomon.models.utils as MU
        import keras

        sc = Scene(ctx)
        made = []

        def Input(shape=None, dtype=None, **k):
            t = declare(f"z#{len(made)}", sc.B, *[(sc.N if s == dsize(sc.N) else (con(s),)) for s in shape])
            made.append(t)
            return t

        modular.patch_attr(MU, "Input", Input)

        class M:
            input = keras.KerasTensor((None, dsize(sc.N)))
            layers = [type("L", (), {"dtype": "float32"})()]

        # the distance of x^ to the centre is known through the interface contract of get_upper and get_lower only, except for boxes
        dom = C.BoxDomain() if kind == "box" else C.BallDomain(eps=0.3, p=float("inf") if kind == "ball_inf" else int(kind[-1]))
        if kind in ("ball_2", "ball_1"):
            dom.get_upper = lambda x, w, b, **k: sc._dom_bound("dU", w, b, +1)
            dom.get_lower = lambda x, w, b, **k: sc._dom_bound("dL", w, b, -1)
        z, ins = MU.get_input_tensors(M, dom, ibp=ibp, affine=affine)
        if not ctx.fact("one input", len(made) == 1 and z is made[0], f"{len(made)}"):
            return
        want = (z.shape[0], 2, dsize(sc.N)) if kind == "box" else (z.shape[0], dsize(sc.N))
        if not ctx.fact("shape of the input", tuple(z.shape) == want, f"{z.shape}"):
            return
        if kind == "box":
            ctx.hyp("x^ in box", lambda b, n: [T.ge(z.real(((b,), (T.iconst(1),), (n,))), sc.xh.real(((b,), (n,)))), T.ge(sc.xh.real(((b,), (n,))), z.real(((b,), (T.iconst(0),), (n,))))], ("xh",))
        elif kind == "ball_inf":
            ctx.hyp("x^ in ball", lambda b, n: [T.ge(T.const(0.3), T.tabs(T.sub(z.real(((b,), (n,))), sc.xh.real(((b,), (n,))))))], ("xh",))
        mode = {(True, True): "hybrid", (True, False): "ibp", (False, True): "affine"}[ibp, affine]
        sc.check_relaxation(list(ins), mode, sc.xh, x=z if mode != "ibp" else None)

    return r


def cases():
    out = []
    P = "decomon.models."
    nb = {(False, False): "full", (True, True): "diagonal", (True, False): "upper diagonal"}
    for da in nb:
        for db in nb:
            out.append(case(f"merge_with_previous {nb[da]} then {nb[db]}", run_merge(da, db, 0), [P + "crown.merge_with_previous", P + "crown.merge_with_previous_compute_output_shape"]))
    for k in (1, 2):
        out.append(case(f"MergeWithPrevious {'with' if k == 2 else 'without'} shapes", run_merge((False, False), (False, False), k), [P + "crown.MergeWithPrevious.call", P + "crown.MergeWithPrevious.compute_output_shape"]))
    for m in MODES:
        for d in (False, True):
            out.append(case(f"Fuse {m}{' diagonal' if d else ''}", run_fuse(m, d), [P + "crown.Fuse.call", P + "crown.Fuse.compute_output_shape"]))
        for k in ("box", "ball", "any") if m == "ibp" else ("any",):
            out.append(case(f"Convert2BackwardMode {m} {k}", run_close(m, k), [P + "crown.Convert2BackwardMode.call"]))
        for mt in MODES:
            for rank in (1, 2, 3):
                out.append(case(f"Convert2Mode {m} to {mt} rank {rank}", run_convert(m, mt, rank, True), [P + "utils.Convert2Mode.call", P + "utils.Convert2Mode.compute_output_shape"]))
            out.append(case(f"Convert2Mode {m} to {mt} same dimension", run_convert(m, mt, 1, False), [P + "utils.Convert2Mode.call"]))
            for k in ("box", "ball"):
                out.append(case(f"set_domain_input_from_ibp {m} to {mt} {k}", run_domain_from_ibp(m, mt, k), [P + "utils.set_domain_input_from_ibp"]))
    for k in Dmn.KINDS:
        for ibp, aff in ((True, True), (True, False), (False, True)):
            out.append(case(f"get_input_tensors {k} ibp={ibp} affine={aff}", run_inputs(k, ibp, aff), [P + "utils.get_input_tensors"]))
    return out
