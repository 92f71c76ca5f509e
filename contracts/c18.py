"""Bounds on a box (get_range_box and its two projections): the code that turns the outputs of a decomon model into the numbers a user reads.

The decomon model is used through its contract (C16, C17): for every row of its input, its outputs enclose the value of the model at
every point of the box described by this row."""
from engine import npstub
from engine import tensor as S
from engine.prover import Hyp, Prover
from engine.tensor import Tensor, con, dim
from .lib import *
from .lib import _bi


def decide(ctx):
    """a branch on data is decided by the precondition, or the case fails"""

    def f(t):
        for v, g in ((True, t), (False, T.lnot(t))):
            if g is T.TRUE:
                return v
            if g.op == "not" and g.args[0].op == "ge":
                a, b = g.args[0].args
                g = T.gt(b, a)
            if g is not T.FALSE and Prover(ctx.hyps, timeout=5.0).prove(g).ok:
                return v
        raise S.Unsupported(f"branch not decided by the precondition: {str(t)[:300]}")

    return f


class Wrapped:
    """points x^[p], the domain each of them belongs to, the values y[p] = f(x^[p]), and models that enclose f"""

    def __init__(self, ctx, B, out, raw=1, ball=False):
        import decomon.wrapper as W

        self.ctx, self.W = ctx, W
        npstub.install(W)
        S.DECIDE[:], S.ALLEXT[:] = [decide(ctx)], []
        self.B, self.out = B, list(out)
        self.raw = [(dim(f"i{k}"),) for k in range(raw)]
        self.N = tuple(a for d in self.raw for a in d)
        self.xh = declare("xh", B, self.N)
        self.y = declare("y", B, *self.out)
        self.n = 0
        self.known = {}
        self.aligned = {}
        modular.patch("decomon.wrapper", "clone", self.clone_contract)

    def box(self):
        """arbitrary boxes, one per point, that contain the points"""
        ctx, xh = self.ctx, self.xh
        self.lo, self.hi = declare("xmin", self.B, self.N), declare("xmax", self.B, self.N)

        def f(b, *m):
            i = ((b,), m)
            return [T.ge(self.hi.real(i), xh.real(i)), T.ge(xh.real(i), self.lo.real(i))]

        for nm in ("xh", "xmin", "xmax"):
            ctx.hyp("x^ in the box", f, (nm,))
        shape = tuple(dsize(d) for d in [self.B] + self.raw)
        return K.reshape(self.lo, shape), K.reshape(self.hi, shape)

    # -- the contract of a converted model
    def row_contains(self, z, r, p):
        m = tuple(T.ivar(a) for a in self.N)
        lo, hi = z.real((r, (T.iconst(0),), m)), z.real((r, (T.iconst(1),), m))
        x = self.xh.real((p, m))
        ok = lambda g: g is T.TRUE or Prover(self.ctx.hyps, timeout=5.0).prove(g).ok
        return ok(T.ge(hi, x)) and ok(T.ge(x, lo))

    def rows(self, z, contains):
        """which points are known to belong to the domain of which row"""
        found = {}
        pts = [i[0] for i in all_indices([self.B])]
        for (r,) in all_indices([z.dims[0]]):
            key = tuple(None if t.op != "ic" else t.args[0] for t in r)
            ivs = [t for t in r if t.op != "ic"]
            for p in pts:
                if all(t.op == "ic" for t in p):
                    q = p
                else:
                    q = tuple(ivs[: len(p)])
                    if len(q) != len(p):
                        continue
                if contains(z, r, q):
                    found.setdefault(key, []).append(tuple(None if t.op != "ic" else t.args[0] for t in q))
        return found

    def points_of(self, found, r):
        key = tuple(None if t.op != "ic" else t.args[0] for t in r)
        ivs = [t for t in r if t.op != "ic"]
        for p in found.get(key, ()):
            it = iter(ivs)
            yield tuple(T.iconst(k) if k is not None else next(it) for k in p)

    def model(self, mode, domain, back=None):
        """a decomon model, by contract"""
        scene, ctx = self, self.ctx
        from decomon.models.models import DecomonModel

        ball = type(domain).__name__ == "BallDomain"
        nin = dsize(self.N)

        class Converted(DecomonModel):
            def __init__(self):
                pass

            input_shape = (None, nin) if ball else (None, 2, nin)
            if back:
                input_shape = [input_shape, (None, dsize(scene.out[0]), dsize(scene.out[0]))]

            def __call__(self, z):
                return scene.outputs(self, z, mode, ball) if not back else scene.back_outputs(self, z, mode, ball, back)

        m = object.__new__(Converted)
        for k, v in dict(perturbation_domain=domain, ibp=mode != "affine", affine=mode != "ibp", backward_bounds=bool(back), method=back or "crown", dc_decomp=False, finetune=False, _operations=[], _layers=[]).items():
            object.__setattr__(m, k, v)
        return m

    def back_outputs(self, m, inputs, mode, ball, method):
        """bounds given on the outputs: backward methods bound the outputs times the matrix, the others ignore it"""
        z, C = [as_tensor(t) for t in inputs]
        o = dsize(self.out[0])
        if not self.ctx.fact("matrix of the outputs: shape", C.shape[1:] == (o, o) and C.shape[0] in (1, z.shape[0]), f"{C.shape}"):
            raise ValueError("matrix of the outputs")
        if method.startswith("forward"):
            return self.outputs(m, z, mode, ball)

        def margin(i, p, r):
            rc = tuple(r) if C.dims[0] else ()
            return K._sum_atoms(self.out[0], lambda k: T.mul(C.real((rc, k, i[0])), self.y.real((p, k))))

        return self.outputs(m, z, mode, ball, margin)

    def outputs(self, m, z, mode, ball, value=None):
        z = as_tensor(z)
        want = (self.N,) if ball else ((con(2),), self.N)
        if not self.ctx.fact("input of the converted model: shape", z.shape[1:] == tuple(dsize(d) for d in want), f"{z.shape}"):
            raise ValueError("input of the converted model")
        found = self.rows(z, self.ball_contains(m) if ball else self.row_contains)
        self.n += 1
        k = self.n
        Bz, out = z.dims[0], self.out
        known = lambda nm, rel: self.ctx.hyp(nm, lambda *ids: [rel(unflat(ids, [Bz] + out), p) for p in self.points_of(found, ids[: len(Bz)])], (nm,))
        yp = (lambda i, p: self.y.real((p,) + tuple(i[1:]))) if value is None else lambda i, p: value(i[1:], p, i[0])
        for nm in ("u", "l", "wu", "wl", "bu", "bl"):
            self.known[f"{nm}{k}"] = lambda ids, nb=len(Bz): tuple(None if t.op != "ic" else t.args[0] for t in ids[:nb]) in found
        u = l = wu = bu = wl = bl = None
        if mode != "affine":
            u, l = declare(f"u{k}", Bz, *out), declare(f"l{k}", Bz, *out)
            known(f"u{k}", lambda i, p: T.ge(u.real(i), yp(i, p)))
            known(f"l{k}", lambda i, p: T.ge(yp(i, p), l.real(i)))
        if mode != "ibp":
            wu, wl = declare(f"wu{k}", Bz, self.N, *out), declare(f"wl{k}", Bz, self.N, *out)
            bu, bl = self.offset(f"bu{k}", wu, Bz, found, +1, yp), self.offset(f"bl{k}", wl, Bz, found, -1, yp)
        modular.USED.add("decomon.models.convert.clone (outputs of the converted model)")
        return {"hybrid": [z, u, wu, bu, l, wl, bl], "ibp": [u, l], "affine": [z, wu, bu, wl, bl]}[mode]

    def offset(self, nm, w, Bz, found, sg, yp):
        """b with w.x^ + b = y + gap, gap >= 0 (upper), for the point of the row; anything for the other rows"""
        gap = declare(nm, Bz, *self.out)
        self.ctx.hyp(nm, lambda *ids: T.ge(gap.real(unflat(ids, gap.dims)), T.ZERO), (nm,))

        def b(i):
            for p in self.points_of(found, i[0]):
                g = gap.real(i)
                self.aligned.setdefault(sg, {})[p] = (w, i[0])
                return T.sub(T.add(yp(i, p), g if sg > 0 else T.neg(g)), self.lin(w, i, p))
            return T.app("free" + nm, *flat(i))

        return Tensor(gap.dims, b)

    def lin(self, w, i, p):
        return K._sum_atoms(self.N, lambda m: T.mul(w.real((i[0], m) + tuple(i[1:])), self.xh.real((p, m))))

    def clone_contract(self, model, *a, perturbation_domain=None, method=None, **k):
        import decomon.core as C

        self.ctx.fact("clone: the model of the user is converted", model is self.keras, f"{model}")
        self.ctx.fact("clone: no other option", not a and not k, f"{a} {k}")
        return self.model(self.mode, perturbation_domain if perturbation_domain is not None else C.BoxDomain())

    def user_model(self, mode, domain, keras=False, back=None):
        self.mode = mode
        if keras:
            self.keras = object()
            return self.keras
        return self.model(mode, domain, back)


def refine_contract(s):
    """refine_boxes: powers of two many sub-boxes, one of which contains the point (C20)"""

    def f(x_min, x_max, n_sub_boxes=10):
        n = 1
        while 2 * n <= n_sub_boxes:
            n *= 2
        x_min, x_max = as_tensor(x_min), as_tensor(x_max)
        s.ctx.fact("refine_boxes: the boxes of the user", same_tensor(x_min, s.user[0]) and same_tensor(x_max, s.user[1]), "other boxes")
        k = modular.fresh("sub")
        dims = (s.B, (con(n),) if n > 1 else (), s.N)
        lo, hi = declare(f"{k}lo", *dims), declare(f"{k}hi", *dims)
        which = s.which % n
        w = (T.iconst(which),) if n > 1 else ()

        def g(*ids):
            i = unflat(ids, dims)
            ordered = T.ge(hi.real(i), lo.real(i))
            if i[1] != w:
                return [ordered]
            v = s.xh.real((i[0], i[2]))
            return [T.ge(hi.real(i), v), T.ge(v, lo.real(i)), ordered]

        s.ctx.hyp("x^ in one of the sub-boxes", g, (lo.name,))
        s.ctx.hyp("x^ in one of the sub-boxes", g, (hi.name,))
        s.n_split = n
        shape = tuple(dsize(d) for d in [s.B, (con(n),) if n > 1 else ()] + s.raw)
        return K.reshape(lo, shape), K.reshape(hi, shape)

    modular.patch("decomon.wrapper", "refine_boxes", f)


def same_tensor(a, b):
    return a.shape == b.shape and all(_bi(a, i, b) is b.real(i) for i in all_indices(b.dims))


def check(s, u, l):
    dims = [s.B] + s.out
    want = tuple(dsize(d) for d in dims)
    for nm, t, sg in (("upper", u, 1), ("lower", l, -1)):
        if t is None:
            continue
        t = as_tensor(t)
        if s.ctx.fact(f"{nm} bound: one number per sample and output", t.shape == want, f"{t.shape}, expected {want}"):
            s.ctx.forall(f"{nm} bound", s.y.dims, lambda i: T.ge(_bi(t, i, s.y), s.y.real(i)) if sg > 0 else T.ge(s.y.real(i), _bi(t, i, s.y)))


def run(mode, rank=1, raw=1, B=None, keras=False, fn="get_range_box", which=0, **kw):
    def r(ctx):
        import decomon.core as C
        import decomon.wrapper as W

        b = (dim("B"),) if B is None else (con(B),)
        s = Wrapped(ctx, b, [(dim(f"o{k}"),) for k in range(rank)], raw)
        s.which = which
        lo, hi = s.user = s.box()
        refine_contract(s)
        m = s.user_model(mode, C.BoxDomain(), keras)
        res = getattr(W, fn)(m, lo, hi, **kw)
        if fn == "get_upper_box":
            check(s, res, None)
        elif fn == "get_lower_box":
            check(s, None, res)
        else:
            check(s, *res)

    return r


def cases():
    F = ["decomon.wrapper.get_range_box"]
    out = []
    for mode in MODES:
        for rank in (1, 2, 3):
            for raw in (1, 3):
                out.append(case(f"box {mode} output axes {rank} input axes {raw}", run(mode, rank, raw), F))
        out.append(case(f"box {mode} keras model", run(mode, keras=True), F))
        for B, bs in ((3, 2), (2, 5), (4, 2), (3, 1), (2, 2)):
            out.append(case(f"box {mode} {B} samples by {bs}", run(mode, 2 if B == 3 else 1, 2, B=B, batch_size=bs), F))
        for n in (2, 3, 4, 5, 8):
            k = 1
            while 2 * k <= n:
                k *= 2
            for w in sorted({0, 1, k // 2, k - 1}):
                out.append(case(f"box {mode} {n} sub-boxes, point in {w}", run(mode, 2 if n == 4 else 1, 2, which=w, n_sub_boxes=n), F))
        for w in (0, 1):
            out.append(case(f"box {mode} 3 samples of 2 sub-boxes by 4, point in {w}", run(mode, 1, 1, B=3, which=w, n_sub_boxes=2, batch_size=4), F))
        for f in ("get_upper_box", "get_lower_box"):
            out.append(case(f"{f} {mode}", run(mode, fn=f), F + [f"decomon.wrapper.{f}"]))
            out.append(case(f"{f} {mode} sub-boxes by 3", run(mode, fn=f, B=2, which=1, n_sub_boxes=2, batch_size=3, raw=2), F + [f"decomon.wrapper.{f}"]))
    return out
