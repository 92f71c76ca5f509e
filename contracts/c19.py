"""Bounds on a ball (get_range_noise and its projections), and changing the domain of a converted model."""
import itertools

import numpy as np

from engine import terms as T
from .c02 import PS, BallScene
from .c13 import diag_contract
from .c18 import *
from .c18 import Wrapped, check
from .lib import *
from .lib import _bi


class Ball(Wrapped):
    """centre c, radius eps, an arbitrary point x^ = c + d of the ball"""

    def __init__(self, ctx, B, out, p, eps, raw=1):
        super().__init__(ctx, B, out, raw)
        self.p = p
        self.x, self.d = declare("x", B, self.N), declare("d", B, self.N)
        self.xh = self.x + self.d
        self.eps = eps
        e = eps.real(()) if isinstance(eps, Tensor) else T.const(eps)
        b = self.ball = object.__new__(BallScene)
        b.ctx, b.p, b.B, b.N, b.out, b.x, b.d, b.e = ctx, p, B, self.N, list(out), self.x, self.d, e
        dd = lambda bi, m: self.d.real((bi, m))
        if p == np.inf:
            ctx.hyp("|d_m| <= eps", lambda bi, *m: T.ge(e, T.tabs(dd((bi,), m))), ("d",))
        else:
            norm = (lambda m, bi: T.mul(dd(bi, m), dd(bi, m))) if p == 2 else (lambda m, bi: T.tabs(dd(bi, m)))
            b.DD = declare("DD", B)
            ctx.hyp("DD", lambda bi: [
                T.eq(b.DD.real(((bi,),)), b.sum(lambda m: norm(m, (bi,)))),
                T.ge(T.mul(e, e) if p == 2 else e, b.DD.real(((bi,),))),
            ], ("DD",))

    def user(self):
        return K.reshape(self.x, tuple(dsize(d) for d in [self.B] + self.raw))

    def ball_contains(self, m):
        D = m.perturbation_domain
        de = D.eps.real(()) if isinstance(D.eps, Tensor) else T.const(D.eps)
        large = D.p == self.p and Prover(self.ctx.hyps, timeout=5.0).prove(T.ge(de, self.ball.e)).ok
        self.ctx.fact("the converted model knows the ball of the user", large, f"eps={D.eps} p={D.p}")

        def f(z, r, p):
            i = tuple(T.ivar(a) for a in self.N)
            return large and z.real((r, i)) is self.x.real((p, i))

        return f

    def weights_of(self, sg, i):
        """the weights that concern the point of each sample"""
        for p, (t, r) in self.aligned.get(sg, {}).items():
            if all(k.op != "ic" for k in p):
                return t.real((T_sub(r, p, i[0]),) + tuple(i[1:]))
            if p == tuple(i[0]):
                return t.real((r,) + tuple(i[1:]))
        return T.ZERO

    def hints(self, sg):
        """Hoelder's inequality for these weights"""
        return self.ball.hints(Tensor([self.B, self.N] + self.out, lambda i: self.weights_of(sg, i), name=f"w{'u' if sg > 0 else 'l'}"))

    def pair_hints(self):
        """Hoelder's inequality for the weights of the upper bound of t* minus those of the lower bound of s*"""
        self.ball.out = []
        w = lambda i: T.sub(self.weights_of(1, (i[0], i[1], (self.t,))), self.weights_of(-1, (i[0], i[1], (self.s,))))
        return self.ball.hints(Tensor([self.B, self.N], w, name="wts"))


def T_sub(r, p, q):
    m = dict(zip(p, q))
    return tuple(m.get(k, k) for k in r)


def check_noise(s, u, l):
    dims = [s.B] + s.out
    want = tuple(dsize(d) for d in dims)
    for nm, t, sg in (("upper", u, 1), ("lower", l, -1)):
        if t is None:
            continue
        t = as_tensor(t)
        if s.ctx.fact(f"{nm} bound: one number per sample and output", t.shape == want, f"{t.shape}, expected {want}"):
            for i in all_indices(dims):
                _bi(t, i, s.y)
            h = s.hints(sg) if s.aligned else None
            s.ctx.forall(f"{nm} bound", s.y.dims, lambda i: T.ge(_bi(t, i, s.y), s.y.real(i)) if sg > 0 else T.ge(s.y.real(i), _bi(t, i, s.y)), h)


def run(mode, p, rank=1, raw=1, B=None, keras=False, fn="get_range_noise", radius="positive", **kw):
    def r(ctx):
        import decomon.core as C
        import decomon.wrapper as W

        b = (dim("B"),) if B is None else (con(B),)
        e0 = declare("eps")
        # the radius and the norm for which the model was converted differ from those asked for
        old = C.BallDomain(eps=declare("eps0"), p=2 if p != 2 else 1)
        asked = e0
        if radius == "zero":
            e0 = asked = 0
        elif radius == "default":
            # a negative radius keeps the domain of the model
            asked = -1.0
            old = C.BallDomain(eps=e0, p=p)
        if radius != "zero":
            ctx.hyp("eps > 0", lambda: T.gt(e0.real(()), T.ZERO))
        s = Ball(ctx, b, [(dim(f"o{k}"),) for k in range(rank)], p, e0, raw)
        m = s.user_model(mode, old, keras)
        res = getattr(W, fn)(m, s.user(), eps=asked, p=p if radius != "default" else 1, **kw)
        if fn == "get_upper_noise":
            check_noise(s, res, None)
        elif fn == "get_lower_noise":
            check_noise(s, None, res)
        else:
            check_noise(s, *res)

    return r


def cases():
    F = ["decomon.wrapper.get_range_noise"]
    out = []
    for mode in MODES:
        for pn, p in PS.items():
            for rank, raw in ((1, 1), (2, 1), (1, 3), (3, 2)):
                out.append(case(f"ball p={pn} {mode} output axes {rank} input axes {raw}", run(mode, p, rank, raw), F))
            out.append(case(f"ball p={pn} {mode} keras model", run(mode, p, keras=True), F))
            for radius in ("zero", "default"):
                out.append(case(f"ball p={pn} {mode} radius {radius}", run(mode, p, radius=radius), F))
            for B, bs in ((3, 2), (2, 5), (4, 2)):
                out.append(case(f"ball p={pn} {mode} {B} samples by {bs}", run(mode, p, 1, 1, B=B, batch_size=bs), F))
        for f in ("get_upper_noise", "get_lower_noise"):
            out.append(case(f"{f} {mode}", run(mode, np.inf, fn=f), F + [f"decomon.wrapper.{f}"]))
            out.append(case(f"{f} {mode} samples by 2", run(mode, 1, fn=f, B=3, batch_size=2), F + [f"decomon.wrapper.{f}"]))
    return out


# ---- DecomonModel.set_domain: the model then computes what a model converted for the new domain computes
def record_operations():
    """every operation of keras.ops on a tensor of the graph is a node of the graph (as in keras)"""
    import sys

    from engine import stubkeras as SK
    from engine.tensor import Tensor as TT

    class Op(SK.Operation):
        def __init__(self, f, name):
            super().__init__()
            self.f = f

        def call(self, *a, **k):
            return self.f(*a, **k)

    def wrap(f, name):
        def g(*a, **k):
            if SK.FUNC.on and SK.FUNC.depth == 0 and any(isinstance(t, TT) and "_keras_history" in t.__dict__ for t in SK.flat(list(a)) + SK.flat(k)):
                return Op(f, name)(*a, **k)
            return f(*a, **k)

        return g

    mod = sys.modules["keras.ops"]
    for n, f in list(vars(mod).items()):
        if callable(f) and not n.startswith("_") and not isinstance(f, type):
            modular.patch_attr(mod, n, wrap(f, n))
    for n in ("getitem", "add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "neg", "pow", "matmul"):
        n = f"__{n}__"
        if n in TT.__dict__:
            modular.patch_attr(TT, n, wrap(TT.__dict__[n], n))


def run_set_domain(arch, method, p0, p1, times=1):
    def r(ctx):
        import decomon.core as C
        import decomon.models.convert as MC
        from engine.stubkeras import FUNC, flat as fl

        from .c16 import ModelScene

        sc = Scene(ctx)
        FUNC.reset(True, sc.B)
        record_operations()
        diag_contract()
        user, _ = arch(sc)
        D = [C.BallDomain(eps=declare(f"eps{k}"), p=p) for k, p in enumerate((p0, p1))]
        m = MC.clone(user, method=method, perturbation_domain=D[0])
        for d in ([D[1]] if times == 1 else [D[1], D[0], D[1]]):
            m.set_domain(d)
        ctx.fact("perturbation_domain of the model", m.perturbation_domain is D[1], "not the new one")
        ctx.fact("the former domain is left as it was", D[0].p == p0 and as_tensor(D[0].eps).name == "eps0", f"{D[0].eps} {D[0].p}")
        z = declare("z", sc.B, sc.N)
        got = fl(m.call(z))
        fresh = MC.clone(user, method=method, perturbation_domain=D[1])
        want = fl(fresh.call(z))
        if ctx.fact("number of tensors", len(got) == len(want), f"{len(got)} {len(want)}"):
            for k, (a, b) in enumerate(zip(got, want)):
                a, b = as_tensor(a), as_tensor(b)
                if ctx.fact(f"output {k}: shape", a.shape == b.shape, f"{a.shape} {b.shape}"):
                    ctx.forall(f"output {k}: that of a model converted for the new domain", b.dims, lambda i: T.eq(_bi(a, i, b), b.real(i)))

    return r


def small_archs():
    from .c16 import ARCHS, KL, act, dense, graph, seq, u

    def res(sc, x):
        L = KL()
        h = L.Dense(dsize(sc.N), activation="relu")(x)
        return L.Dense(u("o"))(L.Add()([x, h]))

    return {"relu network": seq(dense("a", "relu"), dense("b")), "residual": graph(res), "identity": seq(act("linear")), "one Dense": seq(dense("a"))}


def domain_cases():
    F = ["decomon.models.models.DecomonModel.set_domain", "decomon.models.utils.get_input_tensors", "decomon.models.convert.clone"]
    out = []
    for an, arch in small_archs().items():
        for method in ("forward-ibp", "forward-affine", "forward-hybrid", "crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid"):
            if an == "residual" and method.startswith("crown"):
                continue
            for (n0, p0), (n1, p1) in itertools.product(PS.items(), PS.items()):
                if method not in ("forward-hybrid", "crown", "crown-forward-hybrid") and (n0, n1) not in (("inf", "2"), ("2", "1"), ("1", "inf")):
                    continue
                if an != "relu network" and n0 == n1:
                    continue
                out.append(case(f"set_domain {an} {method} p={n0} then {n1}", run_set_domain(arch, method, p0, p1), F))
            out.append(case(f"set_domain {an} {method} three times", run_set_domain(arch, method, np.inf, 2, 3), F))
    return out


_cases = cases


def cases():
    return _cases() + domain_cases()
