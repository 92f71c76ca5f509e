"""Whole models, backward: the tensors returned by clone with the crown methods enclose the outputs of the keras model.

The graph code (clone, convert, convert_backward, crown_model, crown_, get_input_nodes, ...) is executed; backward layers (C12, C13),
chaining and closing of affine bounds (C15), forward layers (C04-C11) and the relaxation of the input (C15) are used through their contracts."""
import os

from engine.stubkeras import Input
from engine.tensor import Tensor
from .lib import *
from .lib import _bi
from .c15 import same_el
from .c16 import ARCHS, KL, NB, ModelScene, act, dense, graph, graphs, inp, layer_classes, M, seq, spec, u, val, value

CROWN = ("crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid")
COVERED = ("Dense", "Conv2D", "Activation", "Flatten", "Reshape", "Permute", "Dropout", "BatchNormalization", "InputLayer")


def flatten(y):
    return y if y.ndim == 2 else K.reshape(y, (y.shape[0], dsize(tuple(a for d in y.dims[1:] for a in d))))


class CrownScene(ModelScene):
    def __init__(self, ctx, ball=False):
        super().__init__(ctx, ball)
        import decomon.models.crown as MC
        from decomon.backward_layers.core import BackwardLayer

        self.known = {}
        for c in layer_classes(BackwardLayer, "decomon.backward_layers"):
            if c.__name__ in ["Backward" + n for n in COVERED]:
                modular.patch_attr(c, "call", self.backward_contract(c, c.__dict__["call"]))
        modular.patch("decomon.models.crown", "merge_with_previous", self.merge_contract)
        fuse, close = MC.Fuse.call, MC.Convert2BackwardMode.call
        modular.patch_attr(MC.Fuse, "call", lambda layer, inputs, **k: self.fuse_contract(layer, inputs, fuse))
        modular.patch_attr(MC.Convert2BackwardMode, "call", lambda layer, inputs, **k: self.close_contract(layer, inputs))

    # ---- affine bounds of `src` known to be above `up` and below `lo` (the same value unless given by the user)
    def make(self, src, up, lo, what):
        src, up, lo = flatten(src), flatten(up), lo if lo is up else flatten(lo)
        if lo is None or lo.ndim != 2:
            lo = up
        w = src.dims + up.dims[1:]
        wu, bu, wl, bl = ts = [declare(modular.fresh(f"{s}@{what}"), *d) for s, d in (("fwu", w), ("fbu", up.dims), ("fwl", w), ("fbl", up.dims))]
        vu, vl = K.sum(wu * K.expand_dims(src, -1), 1) + bu, K.sum(wl * K.expand_dims(src, -1), 1) + bl

        def fact(*ids):
            i = unflat(ids, up.dims)
            return [T.ge(_bi(vu, i, up), up.real(i)), T.ge(_bi(lo, i, up), _bi(vl, i, up))]

        self.ctx.hyp(what, fact, [bu.name, bl.name])
        self.known[bu.name] = (src, up, lo, ts)
        return list(ts)

    def find(self, ts):
        try:
            b = as_tensor(ts[1])
            e = b.at(next(all_indices(b.dims)))
        except Exception:
            return None
        r = self.known.get(e.args[0]) if e.op == "app" else None
        if r is not None and all(as_tensor(t).dims == k.dims and same_el(t, k) for t, k in zip(ts, r[3])):
            return r[:3]
        return None

    def need(self, ts, what):
        r = self.find(ts)
        if not self.ctx.fact(f"{what}: affine bounds of a known value", r is not None, "unknown affine bounds"):
            raise ValueError(f"{what}: unknown affine bounds")
        return r

    def same_value(self, a, b, what):
        a, b = flatten(a), flatten(b)
        if not self.ctx.fact(f"{what}: shapes of the chained values", a.shape == b.shape, f"{a.shape} {b.shape}"):
            raise ValueError(what)
        if a is not b:
            self.ctx.forall(f"{what}: the chained values are the same", b.dims, lambda i: T.eq(_bi(a, i, b), b.real(i)))

    def backward_contract(self, cls, orig):
        def call(layer, inputs, **kw):
            modular.USED.add(f"{cls.__module__}.{cls.__name__}.call")
            mode = val(layer.mode)
            what = cls.__name__
            (y,), known = self.values(inputs, mode, what)
            if known:
                self.same_domain(layer.perturbation_domain, what)
            L = layer.layer
            t = L.output if L.__class__.__name__ == "InputLayer" else L.input
            sh = tuple((t[-1] if isinstance(t, list) else t).shape)
            full = y
            if y.shape[1:] != sh[1:]:
                if not self.ctx.fact(f"{what}: the input has the shape of the input of the layer, or is flattened", y.ndim == 2, f"{y.shape} {sh}"):
                    raise ValueError(what)
                full = K.reshape(y, (y.shape[0],) + sh[1:])
            z = full if L.__class__.__name__ == "InputLayer" else spec(L, [full]) if hasattr(L, "original_keras_layer_class") else L.call(full)
            z = flatten(as_tensor(z))
            return self.make(y, z, z, modular.fresh(what))

        return call

    def merge_contract(self, inputs):
        a, c = list(inputs[:4]), list(inputs[4:])
        y, h, h2 = self.need(a, "merge")
        r = self.find(c)
        if r is None:  # given by the user
            if not self.ctx.fact("merge: the inner bounds enclose one value", h is h2, "two values"):
                raise ValueError("merge")
            f = lambda w, b: K.sum(as_tensor(w) * K.expand_dims(h, -1), 1) + as_tensor(b)
            up = f(*c[:2])
            lo = up if all(same_el(p, q) for p, q in zip(c[:2], c[2:])) else f(*c[2:])
        else:
            src, up, lo = r
            self.ctx.fact("merge: the inner bounds enclose one value", h is h2, "two values")
            self.same_value(h, src, "merge")
        return self.make(y, up, lo, modular.fresh("merge"))

    def fuse_contract(self, layer, inputs, orig):
        mode = val(layer.mode)
        src, up, lo = self.need(inputs[-4:], "fuse")
        (y,), known = self.values(inputs[:-4], mode, "fuse")
        self.ctx.fact("fuse: bounds of the input of the model", known, "unknown")
        self.same_value(y, src, "fuse")
        if mode == "ibp":
            return orig(layer, inputs)
        return self.make(self.xh, up, lo, modular.fresh("fuse"))

    def close_contract(self, layer, inputs):
        mode = val(layer.mode)
        src, up, lo = self.need(inputs[-4:], "close")
        self.same_domain(layer.perturbation_domain, "close")
        self.same_value(self.xh, src, "close")
        (y,), known = self.values(inputs[:-4], mode, "close")
        self.ctx.fact("close: bounds of the input of the model", known, "unknown")
        self.same_value(self.xh, y, "close")
        x = inputs[0] if mode != "ibp" else None
        tag = "@" + modular.fresh("close")
        if lo is up:
            out, _ = self.relaxation(mode, up.dims[1:], tag=tag, y=up, x=x, eager=True)
            return out
        a, _ = self.relaxation(mode, up.dims[1:], tag=tag + "u", y=up, x=x, eager=True)
        b, _ = self.relaxation(mode, lo.dims[1:], tag=tag + "l", y=lo, x=x, eager=True)
        n = {"hybrid": 4, "ibp": 1, "affine": 3}[mode]
        return a[:n] + b[n:]


def run(arch, method, final=None, ball=False, back=None, **kw):
    def r(ctx):
        from decomon.models.convert import clone
        from decomon.models.utils import get_ibp_affine_from_method

        sc = CrownScene(ctx, ball)
        model, ref = arch(sc)
        want = [flatten(w) for w in value(ref, sc.xh)]
        before = value(model, sc.xh)
        layers = list(model.layers)
        names = [l.name for l in layers]
        ib, af = get_ibp_affine_from_method(method)
        from_affine = af
        k = dict(kw)
        if final:
            k.update(final_ibp=final[0], final_affine=final[1])
            ib, af = final
        user = []
        low = want
        if back:
            n, o = want[0].shape[1], u("q")
            if back == "matrix":
                user = [Input((n, o))]
                want = low = [K.sum(user[0] * K.expand_dims(want[0], -1), 1)]
            else:
                user = [Input((n, o)), Input((o,)), Input((n, o)), Input((o,))]
                f = lambda w, b: K.sum(w * K.expand_dims(v, -1), 1) + b
                v = want[0]
                want, low = [f(*user[:2])], [f(*user[2:])]
            k["back_bounds"] = list(user)
        dm = clone(model, method=method, perturbation_domain=sc.dom, **k)
        mode = {(True, True): "hybrid", (True, False): "ibp", (False, True): "affine"}[ib, af]
        ins = [sc.z] + user
        ctx.fact("inputs of the decomon model", len(dm.inputs) == len(ins) and all(a is b for a, b in zip(dm.inputs, ins)), f"{len(dm.inputs)}")
        ctx.fact("attributes", (dm.ibp, dm.affine) == (ib, af) and dm.perturbation_domain is sc.dom and val(dm.method) == val(method), f"{dm.ibp} {dm.affine}")
        x = sc.z if from_affine else (sc.ins[0] + sc.ins[1]) / 2 if ball else K.stack([sc.ins[1], sc.ins[0]], 1)
        nb = NB[mode]
        outs = list(dm.outputs)
        if ctx.fact("number of tensors returned by the decomon model", len(outs) == nb * len(want), f"{len(outs)} for {len(want)} outputs"):
            for j, (w, l) in enumerate(zip(want, low)):
                if w is l:
                    sc.check_outputs(outs[nb * j : nb * j + nb], mode, w, x, f" {j}" if j else "")
                else:
                    check_pair(sc, outs, mode, w, l)
        after = value(model, sc.xh)
        ctx.fact("the keras model: names and order of its layers", all(a is b for a, b in zip(model.layers, layers)) and [l.name for l in layers] == names, f"{[l.name for l in layers]} instead of {names}")
        for a, b in zip(after, before):
            if ctx.fact("the keras model: shape", a.shape == b.shape, f"{a.shape}"):
                ctx.forall("the keras model is unchanged", b.dims, lambda i: T.eq(_bi(a, i, b), b.real(i)))

    return r


def check_pair(sc, outs, mode, up, lo):
    """upper bounds above up, lower bounds below lo"""
    ctx = sc.ctx
    outs = [as_tensor(t) for t in outs]
    if mode != "ibp":
        sc.is_x(outs[0], "outputs")
    n = {"hybrid": 4, "ibp": 1, "affine": 3}[mode]
    us, ls = outs[(mode != "ibp") : n], outs[n:]
    aff = lambda w, b: K.sum(w * K.expand_dims(sc.xh, -1), 1) + b
    if mode != "affine":
        U, L = us[0], ls[0]
        if ctx.fact("shapes", U.shape == L.shape == up.shape, f"{U.shape}"):
            ctx.forall("upper constant above the upper form", up.dims, lambda i: T.ge(_bi(U, i, up), up.real(i)))
            ctx.forall("lower constant below the lower form", lo.dims, lambda i: T.ge(lo.real(i), _bi(L, i, lo)))
    if mode != "ibp":
        U, L = aff(*us[-2:]), aff(*ls[-2:])
        ctx.forall("upper affine bound above the upper form", up.dims, lambda i: T.ge(_bi(U, i, up), up.real(i)))
        ctx.forall("lower affine bound below the lower form", lo.dims, lambda i: T.ge(lo.real(i), _bi(L, i, lo)))


# ------------------------------------------------------------------ topologies: chains, with branches to several outputs
def multi_axis(sc, x):
    L = KL()
    y = L.Reshape((2, 3))(L.Dense(6, activation="relu")(x))
    y = L.Dense(2, activation="tanh")(y)
    y = L.Permute((2, 1))(y)
    return L.Dense(u("o"))(L.Flatten()(L.Dropout(0.2)(L.BatchNormalization()(y))))


def image(sc, x):
    L = KL()
    y = L.Reshape((3, 3, 1))(L.Dense(9)(x))
    y = L.Conv2D(2, (2, 2), activation="relu")(y)
    y = L.Conv2D(1, (2, 1))(y)
    y = L.BatchNormalization()(y)
    return L.Dense(u("o"))(L.Flatten()(L.Activation("relu")(y)))


def multi_axis_output(sc, x):
    L = KL()
    return L.Activation("relu")(L.Reshape((2, 3))(L.Dense(6, activation="relu")(x)))


CHAINS = {n: ARCHS[n] for n in ("one Dense", "identity", "Dense with activation", "Dense and Activation", "functional", "nested model", "two outputs", "two outputs of unequal depths",
                               "layers of another model", "part of a bigger model", "final softmax in Activation", "final softmax in Softmax", "final softmax in Dense")}
CHAINS["several axes"] = graph(multi_axis)
CHAINS["images"] = graph(image)
CHAINS["output with several axes"] = graph(multi_axis_output)


# every tree of at most four calls of Dense and relu, its leaves are the outputs
def trees(k):
    def grow(t):
        if len(t) == k:
            yield t
            return
        for n in range(len(t) + 1):
            for o in "dr":
                yield from grow(t + ((o, n),))

    yield from grow(())


def tree(t):
    def arch(sc):
        L = KL()
        n = dsize(sc.N)
        ts = [inp(sc)]
        for o, i in t:
            ts.append((L.Dense(n) if o == "d" else L.Activation("relu"))(ts[i]))
        used = {i for _, i in t}
        outs = [v for j, v in enumerate(ts) if j not in used]
        m = M(ts[0], outs if len(outs) > 1 else outs[0])
        return m, m

    return arch


def run_trees(gs, method):
    def r(ctx):
        for g in gs:
            k = len(ctx.results)
            modular.restore()
            run(tree(g), method)(ctx)
            for o in ctx.results[k:]:
                o["ob"] = f"{''.join(a + str(n) for a, n in g)}: {o['ob']}"

    return r


def cases():
    out = []
    P = "decomon.models."
    F = [P + "convert.clone", P + "convert.convert", P + "convert.preprocess_keras_model", P + "backward_cloning.convert_backward", P + "backward_cloning.crown_model",
         P + "backward_cloning.crown_", P + "backward_cloning.get_input_nodes", P + "backward_cloning.retrieve_layer", "decomon.backward_layers.convert.to_backward",
         P + "forward_cloning.convert_forward", P + "forward_cloning.convert_forward_functional_model", P + "utils.split_activation", P + "utils.get_depth_dict", P + "models.DecomonModel"]
    for n, a in CHAINS.items():
        for m in CROWN:
            out.append(case(f"{n}: {m}", run(a, m), F))
    for m in CROWN:
        for ball in (False, True):
            for fi in ((True, True), (True, False), (False, True)):
                out.append(case(f"Dense with activation: {m} final {fi}{' ball' if ball else ''}", run(ARCHS["Dense with activation"], m, fi, ball), F + [P + "utils.Convert2Mode.call", P + "utils.set_domain_input_from_ibp"]))
        for b in ("matrix", "four"):
            for n in ("Dense with activation", "final softmax in Activation"):
                out.append(case(f"{n}: {m} bounds given on the output ({b})", run(CHAINS[n], m, back=b), F))
        for kw in (dict(shared=False), dict(finetune=True), dict(slope="zero-lb"), dict(finetune_backward=True, slope="adaptative-slope")):
            for n in ("Dense with activation", "several axes"):
                out.append(case(f"{n}: {m} {kw}", run(CHAINS[n], m, **kw), F))
    gs = [g for k in (1, 2, 3, 4) for g in trees(k)]
    quick = os.environ.get("VERIF_TIER", "quick") == "quick"
    for m in CROWN:
        if quick and m in CROWN[1:3]:
            continue
        for j in range(0, len(gs), 48):
            out.append(case(f"trees of at most 4 calls {j}: {m}", run_trees(gs[j : j + 48], m), F))
    return out
