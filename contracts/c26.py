"""Tuned bounds on a box (get_upper_box_tuning, get_lower_box_tuning).

Bounds on a box (C18), splitting (C21), the loss (C23), fitting and resetting (C22) are used through their contracts: a fit moves the
trainable variables anywhere their constraints allow, so with frozen weights the model bounds the same network with other coefficients,
and with weights that are not frozen it bounds another one."""
import types

from engine import npstub
from engine.tensor import Tensor, con, dim
from .lib import *
from .lib import _bi
from .c18 import Wrapped, refine_contract

MOD = "decomon.wrapper_with_tuning"


class Tuned(Wrapped):
    """the state of the model: version of the coefficients (0: as they were), weights frozen or not, moved or not"""

    def start(self, mode):
        import decomon.core as C

        self.alpha, self.frozen, self.moved = 0, False, False
        self.m = self.model(mode, C.BoxDomain())
        s, ctx = self, self.ctx

        def fit(z, *a, **k):
            ctx.fact("the weights are frozen while tuning", s.frozen, "trainable weights")
            s.moved |= not s.frozen
            s.alpha = modular.fresh("tuned")

        def reset():
            s.alpha = 0

        def freeze():
            s.frozen = True

        def unfreeze():
            s.frozen = False

        for k, v in dict(freeze_weights=freeze, unfreeze_weights=unfreeze, reset_finetuning=reset, freeze_alpha=lambda: None, unfreeze_alpha=lambda: None).items():
            object.__setattr__(self.m, k, v)
        self.concat = types.SimpleNamespace(compile=lambda *a, **k: None, fit=fit, train_on_batch=fit)
        self.sample = {}

    def bound(self, sg):
        """get_upper_box (sg = 1) or get_lower_box: C18"""
        s, ctx = self, self.ctx
        side = "upper" if sg > 0 else "lower"

        def f(model, x_min, x_max, batch_size=-1, n_sub_boxes=1, **kw):
            if model is not s.m or kw:
                raise S_unsupported(f"get_{side}_box of another model")
            modular.USED.add(f"decomon.wrapper.get_{side}_box")
            x_min, x_max = as_tensor(x_min), as_tensor(x_max)
            n = x_min.shape[0]
            nin = dsize(s.N)
            lo, hi = K.reshape(x_min, (n, nin)), K.reshape(x_max, (n, nin))
            z = K.stack([lo, hi], 1)
            found = s.rows(z, s.row_contains)
            first = s.alpha == 0 and not s.moved
            k = modular.fresh(f"{side}{'' if first else '_tuned'}")
            out = declare(k, z.dims[0], *s.out)
            Bz = z.dims[0]

            def own(r, p):
                """row r is the box of sample p, as given by the user"""
                m = tuple(T.ivar(a) for a in s.N)
                return lo.real((r, m)) is s.lo.real((p, m)) and hi.real((r, m)) is s.hi.real((p, m))

            def val(i):
                if first:
                    for p in s.points_of(found, i[0]):
                        if own(i[0], p):
                            return T.app(f"untuned{n_sub_boxes}", *flat((p,) + tuple(i[1:])))
                return out.real(i)

            def fact(*ids):
                i = unflat(ids, out.dims)
                return [T.ge(out.real(i), s.y.real((p,) + tuple(i[1:]))) if sg > 0 else T.ge(s.y.real((p,) + tuple(i[1:])), out.real(i)) for p in s.points_of(found, ids[: len(Bz)])]

            if not s.moved:
                ctx.hyp(k, fact, (k,))
            return Tensor(out.dims, val)

        return f

    def untuned(self, n, sg):
        """the bound the user would get without tuning: a valid one"""
        def rel(*ids):
            i = unflat(ids, self.y.dims)
            v = T.app(f"untuned{n}", *ids)
            return T.ge(v, self.y.real(i)) if sg > 0 else T.ge(self.y.real(i), v)

        self.ctx.hyp("untuned bound", rel, (f"untuned{n}",))
        return Tensor(self.y.dims, lambda i: T.app(f"untuned{n}", *flat(i)))


def S_unsupported(m):
    from engine.tensor import Unsupported

    return Unsupported(m)


def run(side, mode, rank=1, raw=1, B=None, which=0, **kw):
    def r(ctx):
        import importlib

        W2 = importlib.import_module(MOD)
        sg = 1 if side == "upper" else -1
        b = (dim("B"),) if B is None else (con(B),) if B > 1 else ()
        s = Tuned(ctx, b, [(dim(f"o{k}"),) for k in range(rank)], raw)
        npstub.install(W2)
        s.which = which
        lo, hi = s.user = s.box()
        refine_contract(s)
        import decomon.wrapper as W

        modular.patch(MOD, "refine_boxes", W.refine_boxes)
        s.start(mode)
        modular.patch(MOD, "get_upper_box", s.bound(1))
        modular.patch(MOD, "get_lower_box", s.bound(-1))
        for n in ("get_upper_loss", "get_lower_loss"):
            modular.patch(MOD, n, lambda model: (lambda y_true, y_pred: None))
        base = s.untuned(kw.get("n_sub_boxes", 1), sg)
        res = as_tensor(getattr(W2, f"get_{side}_box_tuning")(s.m, s.concat, lo, hi, **kw))
        want = tuple(dsize(d) for d in [s.B] + s.out)
        ctx.fact("the coefficients are reset to their initial values", s.alpha == 0, "tuned coefficients are left in the model")
        ctx.fact("the weights of the network are the same", not s.moved, "fitted weights")
        if ctx.fact("one number per sample and output", res.shape == want, f"{res.shape}, expected {want}"):
            up = (lambda a, b: T.ge(a, b)) if sg > 0 else (lambda a, b: T.ge(b, a))
            ctx.forall(f"{side} bound of the model on the box", s.y.dims, lambda i: up(_bi(res, i, s.y), s.y.real(i)))
            ctx.forall("not looser than without tuning", s.y.dims, lambda i: up(base.real(i), _bi(res, i, s.y)))

    return r


def cases():
    out = []
    for side in ("upper", "lower"):
        F = [f"decomon.wrapper_with_tuning.get_{side}_box_tuning"]
        for mode in MODES:
            out.append(case(f"{side} {mode} one batch", run(side, mode, batch_size=-1), F))
            out.append(case(f"{side} {mode} one batch, several axes", run(side, mode, 2, 3, batch_size=-1), F))
            for B, bs in ((1, 1), (3, 1), (3, 2), (4, 2), (2, 5), (3, 3), (5, 2)):
                out.append(case(f"{side} {mode} {B} samples by {bs}", run(side, mode, 1, 2 if B == 3 else 1, B=B, batch_size=bs), F))
            for n in (2, 3, 4):
                k = 2 if n < 4 else 4
                for w in range(k):
                    out.append(case(f"{side} {mode} {n} sub-boxes, point in {w}", run(side, mode, 1, 1, B=2, which=w, batch_size=3 if n == 2 else -1, n_sub_boxes=n), F))
    return out
