"""Backward merges: for every operand, the returned affine form in that operand alone is above (below) the given upper (lower) affine
form of the merged value, whatever the other operands enclosed by their relaxations."""
from engine.tensor import con, dim
from .lib import *
from .lib import _bi
from .c09 import fold, relaxations
from .c12 import KT
from .c13 import flattened

OPS = {"add": K.add, "subtract": K.subtract, "maximum": K.maximum, "minimum": K.minimum, "multiply": K.multiply}


def weights(y):
    """incoming affine forms on the flattened merged value"""
    yf = flattened(y)
    o = (dim("o"),)
    w = lambda n: declare(n, yf.dims[0], yf.dims[1], o)
    b = lambda n: declare(n, yf.dims[0], o)
    return [w("wuo"), b("buo"), w("wlo"), b("blo")]


def form(w, b, y):
    return K.sum(w * K.expand_dims(y, -1), 1) + b


def check(ctx, bounds, ys, z, W=None, exact=False):
    if not ctx.fact("one list of bounds per operand", len(bounds) == len(ys), f"{len(bounds)}"):
        return
    zf = flattened(z)
    up = form(W[0], W[1], zf) if W else zf
    lo = form(W[2], W[3], zf) if W else zf
    for k, (bs, y) in enumerate(zip(bounds, ys)):
        yf = flattened(y)
        if not ctx.fact(f"operand {k}: number of tensors", len(bs) == 4, f"{len(bs)}"):
            continue
        wu, bu, wl, bl = [as_tensor(t) for t in bs]
        n = yf.shape[1]
        o = up.shape[1]
        B = yf.shape[0]
        ok = all(tuple(w.shape[1:]) == (n, o) and w.shape[0] in (1, B) for w in (wu, wl)) and all(tuple(b.shape[1:]) == (o,) and b.shape[0] in (1, B) for b in (bu, bl))
        if not ctx.fact(f"operand {k}: shapes", ok, f"{[t.shape for t in (wu, bu, wl, bl)]}"):
            continue
        u, l = form(wu, bu, yf), form(wl, bl, yf)
        cmp = T.eq if exact else (lambda a, b: T.ge(b, a)) if EXACT.on else T.ge
        ctx.forall(f"operand {k}: w_u.y+b_u above the given upper form", up.dims, lambda i: cmp(_bi(u, i, up), up.real(i)))
        ctx.forall(f"operand {k}: w_l.y+b_l below the given lower form", lo.dims, lambda i: cmp(lo.real(i), _bi(l, i, lo)))


def contracts(sc):
    sc.op_contract("decomon.utils", "subtract", K.subtract, 2)
    sc.op_contract("decomon.utils", "minus", K.negative, 1, False)
    sc.op_contract("decomon.utils", "relu_", K.relu, 1)


def run_fn(name, mode, rank):
    def r(ctx):
        import decomon.backward_layers.utils as U

        f = getattr(U, f"backward_{name}")
        sc = Scene(ctx)
        dom = sc.domain()
        yd = [(dim(f"s{i}"),) for i in range(rank)]
        ins, ys, x = relaxations(sc, mode, [yd, yd])
        contracts(sc)
        W = weights(ys[0])
        bs = f(*ins, *W, perturbation_domain=dom, mode=mode)
        check(ctx, bs, ys, OPS[name](*ys), W)

    return r


def run_layer(cls, nb, mode, rank, src, spec):
    def r(ctx):
        import decomon.backward_layers.backward_merge as BM
        import decomon.layers.decomon_merge_layers as M
        import keras.layers as KL

        sc = Scene(ctx)
        dom = sc.domain()
        yd = [(dim(f"s{i}"),) for i in range(rank)]
        ins, ys, x = relaxations(sc, mode, [yd] * nb)
        contracts(sc)
        kw = dict(mode=mode, perturbation_domain=dom)
        L = getattr(M, "Decomon" + cls)(**kw) if src == "decomon" else getattr(KL, cls)()
        b = getattr(BM, "Backward" + cls)(L, **(kw if src == "keras" else {}))
        bs = b.call([t for i in ins for t in i])
        check(ctx, bs, ys, spec(*ys))

    return r


class Signed(Tensor):
    """a number of known sign: comparisons with 0 are decided (the factor is a Python number)"""

    __slots__ = ()
    SIGN = {}
    __hash__ = Tensor.__hash__

    def _cmp(self, o):
        assert o == 0
        return Signed.SIGN[self.name]

    __ge__ = lambda self, o: self._cmp(o) >= 0
    __gt__ = lambda self, o: self._cmp(o) > 0
    __le__ = lambda self, o: self._cmp(o) <= 0
    __lt__ = lambda self, o: self._cmp(o) < 0


def run_unary(name, sign):
    def r(ctx):
        import decomon.backward_layers.utils as U

        y = declare("y", (dim("B"),), (dim("n"),))
        W = weights(y)
        if name == "minus":
            z, o = K.negative(y), U.backward_minus(*W)
        else:
            s = declare("scale")
            s.__class__ = Signed
            Signed.SIGN["scale"] = sign
            v = s.real(())
            ctx.hyp("sign of the factor", lambda: T.eq(v, T.ZERO) if sign == 0 else T.lnot(T.ge(T.ZERO, v)) if sign > 0 else T.lnot(T.ge(v, T.ZERO)), ("scale",))
            z, o = y * s, U.backward_scale(s, *W)
        check(ctx, [o], [y], z, W, exact=True)

    return r


def cases():
    out = []
    P = "decomon.backward_layers."
    out.append(case("backward_minus", run_unary("minus", 0), [P + "utils.backward_minus"]))
    for sg in (-1, 0, 1):
        out.append(case(f"backward_scale factor {'<=>'[sg + 1]} 0", run_unary("scale", sg), [P + "utils.backward_scale"]))
    for mode in MODES:
        for rank in (1, 2, 3):
            for n in OPS:
                out.append(case(f"backward_{n} rank {rank} {mode}", run_fn(n, mode, rank), [P + f"utils.backward_{n}"]))
                c = n.capitalize()
                out.append(case(f"Backward{c} rank {rank} {mode} from decomon", run_layer(c, 2, mode, rank, "decomon", OPS[n]), [P + f"backward_merge.Backward{c}.call"]))
            for src in ("decomon", "keras"):
                for nb in (1, 2, 3, 4):
                    if nb <= 2:
                        out.append(case(f"BackwardAdd {nb} inputs rank {rank} {mode} from {src}", run_layer("Add", nb, mode, rank, src, lambda *y: fold(K.add)(None, y)), [P + "backward_merge.BackwardAdd.call"]))
                    out.append(case(f"BackwardAverage {nb} inputs rank {rank} {mode} from {src}",
                                    run_layer("Average", nb, mode, rank, src, lambda *y: K.divide(fold(K.add)(None, y), float(len(y)))), [P + "backward_merge.BackwardAverage.call"]))
    return out
