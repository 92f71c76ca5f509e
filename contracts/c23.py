"""Training losses built on the bounds (get_model + get_upper_loss / get_lower_loss / get_adv_loss, cross entropy, radius): each of them is
at least the worst value over the domain of the quantity it stands for.

The decomon model is used through its contract (C16, C17): its outputs enclose the value y of the model at an arbitrary point x^ of the
domain. The losses are executed on the tensor that the model returned by get_model outputs."""
from engine.prover import Prover, has_bound
from engine.tensor import con, dim
from .lib import *
from .lib import _bi

VARIANTS = [(m, b) for m in MODES for b in (False, True)]


class LossScene(Scene):
    """one point per sample, the domain tensor of the samples, and a model that encloses y"""

    def __init__(self, ctx, mode, ball, out=None):
        super().__init__(ctx)
        from decomon.models.models import DecomonModel
        import decomon.core as C

        scene, self.mode = self, mode
        self.O = out or (dim("o"),)
        self.x = declare("x", self.B, self.N) if ball else declare("x", self.B, (con(2),), self.N)

        class Some(C.BallDomain if ball else C.BoxDomain):
            _scene = scene

            def get_upper(self, x, w, b, **kw):
                scene.is_x(x)
                return scene._dom_bound("dU", w, b, +1)

            def get_lower(self, x, w, b, **kw):
                scene.is_x(x)
                return scene._dom_bound("dL", w, b, -1)

        self.dom = Some(eps=0.3, p=2) if ball else Some()
        self.outs, self.y = self.relaxation(mode, [self.O], x=self.x)

        class Given(DecomonModel):
            def __init__(self, inputs=None, outputs=None, perturbation_domain=None, **kw):
                put(self, inputs, outputs, perturbation_domain)

        def put(m, inputs, outputs, domain):
            for k, v in dict(perturbation_domain=domain, ibp=mode != "affine", affine=mode != "ibp", backward_bounds=False, method="forward", dc_decomp=False, finetune=False, _operations=[], _layers=[], _in=inputs, _out=outputs).items():
                object.__setattr__(m, k, v)

        one = lambda v: v[0] if isinstance(v, list) and len(v) == 1 else v
        Given.inputs = property(lambda m: m._in if isinstance(m._in, list) else [m._in])
        Given.outputs = property(lambda m: m._out if isinstance(m._out, list) else [m._out])
        Given.input = property(lambda m: one(m._in))
        Given.output = property(lambda m: one(m._out))
        Given.input_shape = property(lambda m: m.input.shape)
        Given.output_shape = property(lambda m: [t.shape for t in m._out] if isinstance(m._out, list) else m._out.shape)
        modular.patch("decomon.metrics.loss", "DecomonModel", Given)
        self.model = Given([self.x], list(self.outs), self.dom)

    def is_x(self, t):
        t = as_tensor(t)
        if not self.ctx.fact("domain tensor: shape", t.shape == self.x.shape, f"{t.shape} expected {self.x.shape}"):
            raise ValueError("domain tensor")
        self.ctx.forall("domain tensor: the one of the model", self.x.dims, lambda i: T.eq(_bi(t, i, self.x), self.x.real(i)))


def at_least(ctx, name, loss, value):
    """the loss is a number, at least the mean over the samples of value"""
    loss = as_tensor(loss)
    if ctx.fact(f"{name}: a number", loss.shape == (), f"{loss.shape}"):
        ctx.prove(f"{name}: at least the value", T.ge(loss.real(()), value.real(())))


def run_bound(which, mode, ball):
    def r(ctx):
        import decomon.metrics.loss as L

        sc = LossScene(ctx, mode, ball)
        m = L.get_model(sc.model)
        ref = declare("ref", sc.B, sc.O)
        loss = getattr(L, f"get_{which}_loss")(sc.model)(ref, m.output)
        d = K.max(sc.y - ref if which == "upper" else ref - sc.y, -1)
        at_least(ctx, which, loss, K.mean(d))

    return r


class Labels:
    """arbitrary 0/1 labels of each sample, one of its sources s*(b) (label 1) and one of its targets t*(b) (label 0), arbitrary too"""

    def __init__(self, sc):
        self.sc = sc
        q = {"s": declare("q.s", sc.B, sc.O), "t": declare("q.t", sc.B, sc.O)}

        def at(nm):
            def f(b):
                # an arbitrary index is the argument of the maximum of an arbitrary vector
                v = tuple(T.ivar(a, a.name) for a in sc.O)
                return (T.iarg("argmax", v[0], q[nm].real((b, v))),)

            return f

        self.s, self.t = at("s"), at("t")
        self.y = Tensor([sc.B, sc.O], lambda i: T.mask("label", *i[0], *i[1]))

        def known(*ids):
            b, i = unflat(ids, (sc.B, sc.O))
            out = []
            if i == self.s(b):
                out.append(T.eq(T.mask("label", *ids), T.ONE))
            if i == self.t(b):
                out.append(T.eq(T.mask("label", *ids), T.ZERO))
            return out

        sc.ctx.hyp("s* is a source, t* is not", known, ("label",))

    def margin(self, y):
        """y_t* - y_s*"""
        return Tensor([self.sc.B], lambda i: T.sub(y.real((i[0], self.t(i[0]))), y.real((i[0], self.s(i[0])))))


def run_adv(mode, ball, sigmoid=False, clip=None, softmax=False):
    def r(ctx):
        import decomon.metrics.loss as L

        sc = LossScene(ctx, mode, ball)
        lab = Labels(sc)
        m = L.get_model(sc.model)
        if softmax:
            sm = declare("softmax", sc.B, sc.O)  # the softmax of y, by name

            def named(y):
                ctx.forall("softmax: of the output", sc.y.dims, lambda i: T.eq(_bi(y, i, sc.y), sc.y.real(i)))
                return sm

            sc.op_contract("decomon.metrics.loss", "softmax_", named, nops=1)
        loss = L.get_adv_loss(sc.model, sigmoid=sigmoid, clip_value=clip, softmax=softmax)(lab.y, m.output)
        d = lab.margin(sm if softmax else sc.y)
        if clip is not None:
            d = K.maximum(d, clip)
        at_least(ctx, "adv", loss, K.mean(K.sigmoid(d) if sigmoid else d))

    return r


def layer_outputs(sc, mk, build, **kw):
    """of the layer, or of the model that the builder makes with it"""
    import decomon.metrics.loss as L

    if build:
        return as_tensor(getattr(L, build)(sc.model).output)
    return as_tensor(mk(L)(mode=sc.mode, perturbation_domain=sc.dom, **kw).call(list(sc.outs)))


def run_fusion(mode, ball, build=None):
    """log-sum-exp(y) - y_i. The number log-sum-exp(y) is m + log(sum exp(y - m)) for every m, used for the m that occur in the code"""

    def r(ctx):
        sc = LossScene(ctx, mode, ball)
        v = layer_outputs(sc, lambda L: L.DecomonLossFusion, build)
        if not ctx.fact("shape", v.shape == sc.y.shape, f"{v.shape}"):
            return
        L = declare("lse", sc.B)
        for i in all_indices(v.dims):
            t = v.real(i)
            logs = [n for n in T.walk(t) if n.op == "fn" and n.args[0] == "log"]
            hints, extra = [], []
            for n in logs:
                for m in [m for m in T.walk(n.args[1]) if m.op == "maxo" and not has_bound(m)] or [T.ZERO]:
                    e = lambda o: T.fn("exp", T.sub(sc.y.real((i[0], o)), m))
                    S = K._sum_atoms(sc.O, e)
                    hints += [T.ge(S, e(i[1])), T.ge(n.args[1], S)]
                    extra += [ctx.isolate("terms of the sum of exponentials", sc.O[0], e, i[1][0]), T.eq(L.real((i[0],)), T.add(m, T.fn("log", S)))]
            ctx.prove("cross entropy: at least the one of y", T.ge(t, T.sub(L.real((i[0],)), sc.y.real(i))), hints, extra)

    return r


def run_asymptotic(mode, ball, n, build=None):
    """at least -1 and every margin y_t - y_i, t not i"""

    def r(ctx):
        sc = LossScene(ctx, mode, ball, out=(con(n),))
        v = layer_outputs(sc, lambda L: L.DecomonLossFusion, build, asymptotic=True)
        if not ctx.fact("shape", v.shape == sc.y.shape, f"{v.shape}"):
            return
        for i in all_indices(v.dims):
            for t in range(n):
                j = (i[0], (T.iconst(t),))
                g = T.const(-1) if j == i else T.sub(sc.y.real(j), sc.y.real(i))
                ctx.prove(f"label {i[1][0].args[0]} against {t}", T.ge(v.real(i), g))

    return r


def run_radius(mode, n, build=None):
    """1 - output >= e, e <= 1: no label gets above the label in the box shrunk by e"""

    def r(ctx):
        sc = LossScene(ctx, mode, False, out=(con(n),))
        v = layer_outputs(sc, lambda L: L.DecomonRadiusRobust, build)
        if not ctx.fact("shape", v.shape == sc.y.shape, f"{v.shape}"):
            return
        e = T.app("e")
        half = lambda t: K.multiply(t, 0.5)
        lo, hi = sc.x[:, 0], sc.x[:, 1]
        c, rad = half(lo + hi), half(hi - lo)
        ctx.hyp("e", lambda: T.land(T.ge(e, T.ZERO), T.ge(T.ONE, e)))

        def inside(*ids):
            k = unflat(ids, (sc.B, sc.N))
            d, w = T.sub(sc.xh.real(k), c.real(k)), T.mul(e, rad.real(k))
            return [T.ge(w, d), T.ge(T.add(w, d), T.ZERO), T.ge(rad.real(k), T.ZERO)]

        ctx.hyp("x^ in the box shrunk by e", inside, ("xh",))
        wu, bu, wl, bl = (sc.outs[k] for k in ((2, 3, 5, 6) if mode == "hybrid" else (1, 2, 3, 4)))
        at = lambda w, b, k, m: T.mul(w.real((k[0], m, k[1])), b)
        for i in all_indices(v.dims):
            inv = [n for n in T.walk(v.real(i)) if n.op == "recip" and not has_bound(n)]
            for t in range(n):
                j = (i[0], (T.iconst(t),))
                if j == i:
                    continue
                W = lambda m: T.sub(wu.real((i[0], m, j[1])), wl.real((i[0], m, i[1])))
                score = T.add(K._sum_atoms(sc.N, lambda m: T.mul(W(m), c.real((i[0], m)))), T.sub(bu.real(j), bl.real(i)))
                S = K._sum_atoms(sc.N, lambda m: T.mul(T.tabs(W(m)), rad.real((i[0], m))))
                gap = T.sub(T.sub(sc.y.real(j), sc.y.real(i)), score)
                ctx.prove(f"labels {i[1][0].args[0]}, {t}: the margin moves by e times the weighted radius", T.ge(T.mul(e, S), gap), [T.ge(T.mul(e, S), K._sum_atoms(sc.N, lambda m: T.mul(W(m), T.sub(sc.xh.real((i[0], m)), c.real((i[0], m))))))])
                extra = [T.ge(T.mul(e, S), gap)]
                for k in inv:
                    if Prover(ctx.hyps, timeout=5.0).prove(T.ge(k.args[0], S)).ok:
                        extra += [T.ge(k.args[0], S), T.ge(T.mul(e, T.sub(k.args[0], S)), T.ZERO), T.ge(T.mul(e, k.args[0]), gap)]
                ctx.prove(f"label {i[1][0].args[0]} against {t}", T.implies(T.ge(T.sub(T.ONE, v.real(i)), e), T.ge(sc.y.real(i), sc.y.real(j))), (), extra)

        # as much as the bounds show: a margin bound that stays negative in the box shrunk by e (with the precision epsilon to spare) certifies e
        eps = T.const(1e-7)
        for i in all_indices(v.dims):
            shown, pairs = [], []
            for t in range(n):
                j = (i[0], (T.iconst(t),))
                if j == i:
                    continue
                W = lambda m: T.sub(wu.real((i[0], m, j[1])), wl.real((i[0], m, i[1])))
                score = T.add(K._sum_atoms(sc.N, lambda m: T.mul(W(m), c.real((i[0], m)))), T.sub(bu.real(j), bl.real(i)))
                S = K._sum_atoms(sc.N, lambda m: T.mul(T.tabs(W(m)), T.tmax(rad.real((i[0], m)), eps)))
                shown.append(T.ge(T.ZERO, T.add(score, T.mul(e, T.add(S, eps)))))
                pairs.append((score, S))
            extra, done = [], lambda g: Prover(ctx.hyps, timeout=5.0).prove(g).ok
            for k in (n for n in T.walk(v.real(i)) if n.op == "recip" and not has_bound(n)):
                d = k.args[0]
                if not done(T.ge(d, eps)):
                    continue
                extra += [T.ge(d, eps), T.ge(k, T.ZERO), T.eq(T.mul(k, d), T.ONE)]
                for score, S in pairs:
                    if done(T.ge(T.add(S, eps), d)):
                        extra.append(T.ge(T.mul(T.mul(e, k), T.sub(T.add(S, eps), d)), T.ZERO))
                        extra.append(T.implies(T.ge(T.ZERO, T.add(score, T.mul(e, T.add(S, eps)))), T.ge(T.ZERO, T.mul(k, T.add(score, T.mul(e, T.add(S, eps)))))))
            goal = T.ge(T.sub(T.ONE, v.real(i)), e)
            ctx.prove(f"label {i[1][0].args[0]}: as much as the bounds show", T.implies(T.land(*shown), goal), (), extra)

    return r


def run_entropy(mode, rank):
    """categorical_cross_entropy over the contracts of exp, sum, log, expand_dims, minus, add (C09, C10)"""

    def r(ctx):
        import decomon.metrics.utils as U

        M = "decomon.metrics.utils"
        sc = Scene(ctx)
        inputs, y = sc.relaxation(mode, [(dim(f"s{k}"),) for k in range(rank)])
        ax = lambda k: k.get("axis", -1)
        sc.op_contract(M, "exp", K.exp, 1, gives_positive=True)
        sc.op_contract(M, "sum", lambda t, *a, **k: K.sum(t, a[0] if a else ax(k)), 1, domain=False, needs_positive=True, gives_positive=True, kwspec=True)
        sc.op_contract(M, "log", K.log, 1, needs_positive=True)
        sc.op_contract(M, "expand_dims", lambda t, *a, **k: K.expand_dims(t, a[0] if a else ax(k)), 1, kwspec=True)
        sc.op_contract(M, "minus", K.negative, 1)
        sc.op_contract(M, "add", K.add, 2)
        outs = U.categorical_cross_entropy(list(inputs), mode=mode, perturbation_domain=sc.domain())
        z = K.expand_dims(K.log(K.sum(K.exp(y), -1)), -1) - y
        sc.check_relaxation(list(outs), mode, z, x=inputs[0] if mode != "ibp" else None)

    return r


def cases():
    out = []
    for mode, ball in VARIANTS:
        for w in ("upper", "lower"):
            out.append(case(f"{w} loss {mode} {'ball' if ball else 'box'}", run_bound(w, mode, ball), ("decomon.metrics.loss.get_model", f"decomon.metrics.loss.get_{w}_loss")))
        for kw in ({}, {"clip": -0.5}, {"sigmoid": True}, {"softmax": True}):
            out.append(case(f"adv loss {' '.join(kw)} {mode} {'ball' if ball else 'box'}", run_adv(mode, ball, **kw), ("decomon.metrics.loss.get_model", "decomon.metrics.loss.get_adv_loss")))
        b = "ball" if ball else "box"
        X = "decomon.metrics.loss."
        for build in (False, True):
            of = "model" if build else "layer"
            bm = lambda nm: f"build_{nm}_model" if build else None
            fs = lambda layer, nm: [X + layer] + ([X + f"build_{nm}_model"] if build else [])
            out.append(case(f"cross entropy {of} {mode} {b}", run_fusion(mode, ball, bm("crossentropy")), fs("DecomonLossFusion.call", "crossentropy")))
            for n in (2, 3):
                out.append(case(f"asymptotic cross entropy {of} {mode} {b} {n} labels", run_asymptotic(mode, ball, n, bm("asymptotic_crossentropy")), fs("DecomonLossFusion.call", "asymptotic_crossentropy")))
                if not ball and mode != "ibp":
                    out.append(case(f"radius {of} {mode} {n} labels", run_radius(mode, n, bm("radius_robust")), fs("DecomonRadiusRobust.call", "radius_robust")))
    for mode in MODES:
        for rank in (1, 2):
            out.append(case(f"categorical_cross_entropy {mode} rank {rank}", run_entropy(mode, rank), ("decomon.metrics.utils.categorical_cross_entropy",)))
    return out
