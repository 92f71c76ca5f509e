"""Ball domain: get_upper / get_lower are the exact extrema of an affine function over the Lp ball, p in {1, 2, inf}."""
import numpy as np

from engine import kops as K
from engine import terms as T
from engine.tensor import declare, dim
from .lib import D, case

PS = {"inf": np.inf, "2": 2, "1": 1}


class BallScene:
    """centre x, radius eps >= 0, an arbitrary point xh = x + d of the ball"""

    def __init__(self, ctx, p, rank=1):
        self.ctx, self.p = ctx, p
        self.B, self.N = (dim("B"),), (dim("n"),)
        self.out = [(dim(f"o{i}"),) for i in range(rank)]
        self.x = declare("x", self.B, self.N)
        self.w = declare("w", self.B, self.N, *self.out)
        self.b = declare("b", self.B, *self.out)
        self.d = declare("d", self.B, self.N)
        self.eps = declare("eps")
        e = self.eps.real(())
        self.e = e
        ctx.hyp("eps >= 0", lambda: T.ge(e, T.ZERO))
        S = self.sum
        dd = lambda bi, m: self.d.real((bi, m))
        if p == np.inf:
            ctx.hyp("|d_m| <= eps", lambda bi, m: T.ge(e, T.tabs(dd((bi,), (m,)))), ("d",))
        elif p == 2:
            self.DD = declare("DD", self.B)
            ctx.hyp("DD", lambda bi: [
                T.eq(self.DD.real(((bi,),)), S(lambda m: T.mul(dd((bi,), m), dd((bi,), m)))),
                T.ge(T.mul(e, e), self.DD.real(((bi,),))),
            ], ("DD",))
        else:
            self.DD = declare("DD", self.B)
            ctx.hyp("DD", lambda bi: [
                T.eq(self.DD.real(((bi,),)), S(lambda m: T.tabs(dd((bi,), m)))),
                T.ge(e, self.DD.real(((bi,),))),
            ], ("DD",))
        # ghost scalars for the Cauchy-Schwarz argument (defining equations, conservative)

    def sum(self, f):
        return K._sum_atoms(self.N, f)

    def lin(self, w, idx, pt):
        return self.sum(lambda m: T.mul(w.real((idx[0], m) + idx[1:]), pt(idx[0], m)))

    def hints(self, w):
        """lemma instances bounding sum w.d by the dual norm of w times the norm of d"""
        e = self.e
        if self.p == 2:
            nm = w.name if hasattr(w, "name") else "w"
            A = declare("A_" + nm, *((self.B,) + tuple(self.out)))
            C = declare("C_" + nm, *((self.B,) + tuple(self.out)))

            def df(*ids):
                idx = tuple((i,) for i in ids)
                return [
                    T.eq(A.real(idx), self.sum(lambda m: T.mul(w.real((idx[0], m) + idx[1:]), w.real((idx[0], m) + idx[1:])))),
                    T.eq(C.real(idx), self.sum(lambda m: T.mul(w.real((idx[0], m) + idx[1:]), self.d.real((idx[0], m))))),
                    T.ge(A.real(idx), T.ZERO),
                ]

            # A >= 0 is proved as a separate obligation of the case, not assumed
            self.ctx.hyp("A", df, ("A_" + nm, "C_" + nm))

            def h(idx):
                a, c, q = A.real(idx), C.real(idx), self.DD.real((idx[0],))

                def sq(s, t):
                    def f(m):
                        z = T.sub(T.mul(s, self.d.real((idx[0], m))), T.mul(t, w.real((idx[0], m) + idx[1:])))
                        return T.mul(z, z)

                    return T.ge(self.sum(f), T.ZERO)

                def sqm(f):
                    return f

                return [sq(a, c), sq(T.mul(T.const(2), c), T.add(q, T.ONE))]

            self.ctx.forall(
                f"lemma: sum of squares of {nm} is non-negative", D(self.B, *self.out),
                lambda idx: T.ge(self.sum(lambda m: T.mul(w.real((idx[0], m) + idx[1:]), w.real((idx[0], m) + idx[1:]))), T.ZERO),
            )
            return h
        if self.p == 1:

            def h(idx):
                M = K._ext_atoms(self.N, lambda m: T.tabs(w.real((idx[0], m) + idx[1:])), T.tmax, T.maxo)
                S = self.sum(lambda m: T.mul(w.real((idx[0], m) + idx[1:]), self.d.real((idx[0], m))))
                Q = self.DD.real((idx[0],))
                Qs = self.sum(lambda m: T.tabs(self.d.real((idx[0], m))))
                return [T.ge(T.mul(M, Qs), S), T.ge(S, T.neg(T.mul(M, Qs))), T.ge(Q, Qs)]

            return h
        return lambda idx: []

    def point(self, bi, m):
        return T.add(self.x.real((bi, m)), self.d.real((bi, m)))


def run(p, rank):
    def r(ctx):
        import decomon.core as C

        s = BallScene(ctx, p, rank)
        dom = C.BallDomain(eps=s.eps, p=p)
        up, dn = dom.get_upper(s.x, s.w, s.b), dom.get_lower(s.x, s.w, s.b)
        dims = D(s.B, *s.out)
        h = s.hints(s.w)
        for nm, t, sg in (("get_upper", up, 1), ("get_lower", dn, -1)):
            if not ctx.same_dims(f"{nm}: shape", t, dims):
                continue
            val = lambda idx, pt: T.add(s.lin(s.w, idx, pt), s.b.real(idx))

            def sound(idx):
                v = val(idx, s.point)
                return T.ge(t.real(idx), v) if sg > 0 else T.ge(v, t.real(idx))

            ctx.forall(f"{nm}: bounds every point of the ball", dims, sound, h)

            # a point of the ball attains the bound
            def dstar(idx):
                w = lambda m: s.w.real((idx[0], m) + idx[1:])
                sgn = T.const(sg)
                if p == np.inf:
                    return lambda m: T.mul(s.e, sgn, T.ite(T.ge(w(m), T.ZERO), T.ONE, T.const(-1)))
                if p == 2:
                    nrm = T.fn("sqrt", s.sum(lambda m: T.mul(w(m), w(m))))
                    return lambda m: T.mul(s.e, sgn, w(m), T.recip(nrm))
                v = T.ivar(s.N[0])
                best = T.iarg("argmax", v, T.tabs(w((v,))))
                return lambda m: T.mul(s.e, sgn, T.sign(w((best,))), T.delta(m[0], best))

            def attained(idx):
                ds = dstar(idx)
                return T.eq(t.real(idx), val(idx, lambda bi, m: T.add(s.x.real((bi, m)), ds(m))))

            def inball(idx):
                ds = dstar(idx)
                if p == np.inf:
                    m = (T.ivar(s.N[0]),)
                    return T.ge(s.e, T.tabs(ds(m)))
                if p == 2:
                    return T.ge(T.mul(s.e, s.e), s.sum(lambda m: T.mul(ds(m), ds(m))))
                return T.ge(s.e, s.sum(lambda m: T.tabs(ds(m))))

            ctx.forall(f"{nm}: attained", dims, attained, h if p != 1 else None)
            ctx.forall(f"{nm}: attained inside the ball", dims, inball, h if p != 1 else None)

    return r


def run_identity(p):
    def r(ctx):
        import decomon.core as C

        s = BallScene(ctx, p, 1)
        w, b = declare("wid", s.B, s.N), declare("bid", s.B, s.N)
        dom = C.BallDomain(eps=s.eps, p=p)
        up, dn = dom.get_upper(s.x, w, b), dom.get_lower(s.x, w, b)
        dims = D(s.B, s.N)
        if not (ctx.same_dims("get_upper: shape", up, dims) and ctx.same_dims("get_lower: shape", dn, dims)):
            return
        ctx.forall("identity: upper is x+eps", dims, lambda i: T.eq(up.real(i), T.add(s.x.real(i), s.e)))
        ctx.forall("identity: lower is x-eps", dims, lambda i: T.eq(dn.real(i), T.sub(s.x.real(i), s.e)))

        def extra(i):
            d = lambda m: s.d.real((i[0], m))
            if p == np.inf:
                return []
            f = (lambda m: T.mul(d(m), d(m))) if p == 2 else (lambda m: T.tabs(d(m)))
            return [ctx.isolate("one term of the norm", s.N[0], f, i[1][0]), T.ge(s.DD.real((i[0],)), s.sum(f))]

        ctx.forall(
            "identity: bounds every point", dims,
            lambda i: T.land(T.ge(up.real(i), s.point(*i)), T.ge(s.point(*i), dn.real(i))), None, extra,
        )

    return r


def cases():
    F = ["decomon.core.BallDomain.get_upper", "decomon.core.BallDomain.get_lower", "decomon.core.get_upper_ball",
         "decomon.core.get_lower_ball", "decomon.core.get_lq_norm", "decomon.core.get_upper_box", "decomon.core.get_lower_box"]
    out = []
    for pn, p in PS.items():
        for rank in (1, 2, 3):
            out.append(case(f"ball p={pn} rank {rank}", run(p, rank), F))
        out.append(case(f"ball p={pn} identity representation", run_identity(p), F))
    return out
