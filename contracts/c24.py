"""Formal certificates (build_formal_adv_model, build_formal_adv_check_model, build_formal_upper_model): the score is above (below) the
margin of the labels, or the weighted output, at every (some) point of the domain.

The decomon model is used through its contract (C16, C17): its outputs enclose the value y of the model at an arbitrary point x^ of the
domain. Labels are arbitrary 0/1 vectors; outputs are supposed to be below 1e5 in magnitude (the code masks labels with 1e6)."""
from engine.stubkeras import FUNC
from .c23 import LossScene
from .lib import *
from .lib import _bi

VARIANTS = [(m, b) for m in MODES for b in (False, True)]
BIG = T.const(100000)


class Certificate(LossScene):
    def __init__(self, ctx, mode, ball):
        super().__init__(ctx, mode, ball)
        FUNC.batch = self.B
        # two labels of each sample, arbitrary: the argument of the maximum of an arbitrary vector
        q = {"s": declare("q.s", self.B, self.O), "t": declare("q.t", self.B, self.O)}

        def at(nm):
            def f(b):
                v = tuple(T.ivar(a, a.name) for a in self.O)
                return (T.iarg("argmax", v[0], q[nm].real((b, v))),)

            return f

        self.s, self.t = at("s"), at("t")
        for k in {"hybrid": (1, 4), "ibp": (0, 1), "affine": ()}[mode]:  # the constant bounds
            t = self.outs[k]
            self.ctx.hyp("magnitude", lambda *ids, t=t: self.small(t.real(unflat(ids, t.dims))), (t.name,))

    def small(self, v):
        return [T.ge(BIG, v), T.ge(v, T.neg(BIG))]

    def build(self, name):
        import decomon.metrics.metric as M

        m = getattr(M, name)(self.model)
        ins, outs = m.inputs, m.outputs
        ok = self.ctx.fact("inputs: the one of the model, then the labels", len(ins) == 2 and ins[0] is self.x and ins[1].shape == self.y.shape, f"{ins}")
        out = as_tensor(outs[0])
        ok = ok and self.ctx.fact("output: one score per sample", len(outs) == 1 and out.shape == (dsize(self.B),), f"{[t.shape for t in outs]}")
        if not ok:
            raise ValueError("formal model")
        self.label = ins[1]
        return out

    def labels(self):
        """0/1, s* is a source (1), t* a target (0)"""
        L = self.label

        def f(*ids):
            b, i = unflat(ids, L.dims)
            v = L.real((b, i))
            out = [T.lor(T.eq(v, T.ZERO), T.eq(v, T.ONE))]
            if i == self.s(b):
                out.append(T.eq(v, T.ONE))
            if i == self.t(b):
                out.append(T.eq(v, T.ZERO))
            return out

        self.ctx.hyp("labels", f, (L.name,))

    def admitted(self, b, t, s):
        return T.land(T.eq(self.label.real((b, t)), T.ZERO), T.eq(self.label.real((b, s)), T.ONE))


def run_score(mode, ball):
    def r(ctx):
        sc = Certificate(ctx, mode, ball)
        out = sc.build("build_formal_adv_model")
        sc.labels()
        ctx.forall("score: at least the margin of a target over a source", out.dims, lambda i: T.ge(out.real(i), T.sub(sc.y.real((i[0], sc.t(i[0]))), sc.y.real((i[0], sc.s(i[0]))))), extra=lambda i: [T.eq(sc.label.real((i[0], sc.t(i[0]))), T.ZERO), T.eq(sc.label.real((i[0], sc.s(i[0]))), T.ONE)])

    return r


class Check(Certificate):
    """get_upper is the value reached at some point x* of the domain, where the model has the outputs y*; M is above the margin of
    every admitted pair of labels over the domain"""

    def _dom_bound(self, nm, w, b, sgn):
        modular.USED.add("PerturbationDomain.get_upper: attained")
        w, b = as_tensor(w), as_tensor(b)
        dims = b.dims
        if not self.ctx.fact("margins: one bound for each pair of labels", sgn > 0 and len(dims) == 3 and w.ndim == 4, f"{dims}"):
            raise ValueError("margins")
        out = declare(modular.fresh(nm), *dims)
        xs = lambda p, m: T.app(out.name + ".x*", *p, *m)
        ys = lambda p, k: T.app(out.name + ".y*", *p, *k)
        wu, bu, wl, bl = (self.outs[k] for k in ((2, 3, 5, 6) if self.mode == "hybrid" else (1, 2, 3, 4)))

        def f(*ids):
            B, i, j = idx = unflat(ids, dims)
            lin = lambda v: K._sum_atoms(self.N, lambda m: T.mul(v(m), xs(ids, m)))
            cs = [T.eq(out.real(idx), T.add(lin(lambda m: w.real((B, m, i, j))), b.real(idx)))]
            for k in (i, j):
                y = ys(ids, k)
                cs += [T.ge(T.add(lin(lambda m: wu.real((B, m, k))), bu.real((B, k))), y), T.ge(y, T.add(lin(lambda m: wl.real((B, m, k))), bl.real((B, k))))] + self.small(y)
            for t, s in ((i, j), (j, i)):
                cs.append(T.implies(self.admitted(B, t, s), T.ge(self.M(B), T.sub(ys(ids, t), ys(ids, s)))))
            return cs

        self.late.append((out.name, f))
        return out

    def M(self, b):
        return T.app("M", *b)


def run_check(mode, ball):
    def r(ctx):
        sc = Check.__new__(Check)
        sc.late = []
        sc.__init__(ctx, mode, ball)
        out = sc.build("build_formal_adv_check_model")
        sc.labels()
        for n, f in sc.late:
            ctx.hyp("value reached in the domain", f, (n,))
        ctx.hyp("magnitude", lambda *ids: sc.small(sc.y.real(unflat(ids, sc.y.dims))), ("y",))
        O = sc.O[0]
        for i in all_indices(out.dims):
            b = i[0]
            # M >= y_t - y_s for every target t and source s; some pair is admitted, so that the others do not matter
            t, s = T.ivar(O, "t"), T.ivar(O, "s")
            pair = T.sub(T.sub(sc.y.real((b, (t,))), sc.y.real((b, (s,)))), T.mul(T.const(400000), T.add(sc.label.real((b, (t,))), T.sub(T.ONE, sc.label.real((b, (s,)))))))
            some = T.ge(sc.M(b), T.maxo(t, T.maxo(s, pair)))
            one = T.ge(sc.M(b), T.sub(sc.y.real((b, sc.t(b))), sc.y.real((b, sc.s(b)))))
            ctx.prove("score: reached in the domain", T.ge(sc.M(b), out.real(i)), (), [some, one])

    return r


def run_upper(mode, ball):
    def r(ctx):
        sc = Certificate(ctx, mode, ball)
        out = sc.build("build_formal_upper_model")
        L = sc.label
        ctx.hyp("weights", lambda *ids: T.ge(L.real(unflat(ids, L.dims)), T.ZERO), (L.name,))
        ctx.forall("score: at least the weighted sum of the outputs", out.dims, lambda i: T.ge(out.real(i), K.sum(L * sc.y, -1).real(i)))

    return r


def cases():
    out = []
    for mode, ball in VARIANTS:
        t = f"{mode} {'ball' if ball else 'box'}"
        M = "decomon.metrics.metric."
        out.append(case(f"adversarial score {t}", run_score(mode, ball), (M + "build_formal_adv_model", M + "AdversarialScore.call")))
        out.append(case(f"adversarial check {t}", run_check(mode, ball), (M + "build_formal_adv_check_model", M + "AdversarialCheck.call")))
        out.append(case(f"upper score {t}", run_upper(mode, ball), (M + "build_formal_upper_model", M + "UpperScore.call")))
    return out
