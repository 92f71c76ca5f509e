"""Ball domain intersected with a box: the finetuned bounds are sound for every alpha in [0, 1].
The plain ball bound is used through the contract proved in C02 (an upper / lower bound over the ball)."""
import numpy as np

from engine import kops as K
from engine import modular
from engine import terms as T
from engine.tensor import declare, as_tensor, dim
from .c02 import PS
from .lib import D, case, unflat


def run(p, rank, known):
    def r(ctx):
        import decomon.core as C

        B, N = (dim("B"),), (dim("n"),)
        out = [(dim(f"o{i}"),) for i in range(rank)]
        x, w, b = declare("x", B, N), declare("w", B, N, *out), declare("b", B, *out)
        eps = declare("eps")
        up, lo, al = declare("up", N), declare("lo", N), declare("alpha", N, *out)
        xh = declare("xh", B, N)

        def alpha(*ids):
            a = T.app("alpha", *ids)
            return [T.ge(a, T.ZERO), T.ge(T.ONE, a)]

        ctx.hyp("alpha in [0,1]", alpha, ("alpha",))

        def inbox(bi, m):
            v = xh.real(((bi,), (m,)))
            o = []
            if "upper" in known:
                o.append(T.ge(up.real(((m,),)), v))
            if "lower" in known:
                o.append(T.ge(v, lo.real(((m,),))))
            return o

        ctx.hyp("the point is in the box", inbox, ("xh",))

        def lin(w, idx):
            wi = idx[0] if w.dims[0] != () else ()
            return K._sum_atoms(N, lambda m: T.mul(w.real((wi, m) + idx[1:]), xh.real((idx[0], m))))

        def contract(name, sg):
            orig = getattr(C, name)

            def f(*a, **k):
                names = ("x_0", "eps", "p", "w", "b")
                k = {**dict(zip(names, a)), **k}
                if len(k) > 5:
                    return orig(**k)
                ctx.fact(f"{name}: called with the centre, radius and norm of the ball",
                         k["x_0"] is x and k["eps"] is eps and k["p"] == p, "changed")
                w_, b_ = as_tensor(k["w"]), as_tensor(k["b"])
                nm = modular.fresh(name)
                dims = D(B, *w_.dims[2:])
                o = declare(nm, *dims)

                def fact(*ids):
                    idx = unflat(ids, dims)
                    v = T.add(lin(w_, idx), b_.real(idx))
                    return T.ge(o.real(idx), v) if sg > 0 else T.ge(v, o.real(idx))

                ctx.hyp(nm, fact, nm, elim=True)
                return o

            modular.patch("decomon.core", name, f)

        if p != np.inf:
            contract("get_upper_ball", 1)
            contract("get_lower_ball", -1)
        else:
            e = eps.real(())
            ctx.hyp("ball", lambda bi, m: T.ge(e, T.tabs(T.sub(T.app("xh", bi, m), T.app("x", bi, m)))), ("xh",))
        kw = {}
        if "upper" in known:
            kw["upper"] = up
        if "lower" in known:
            kw["lower"] = lo
        dom = C.BallDomain(eps=eps, p=p)
        dims = D(B, *out)
        for nm, meth, arg, sg in (("get_upper", dom.get_upper, "finetune_upper", 1), ("get_lower", dom.get_lower, "finetune_lower", -1)):
            t = meth(x, w, b, **{arg: al}, **kw)
            if not ctx.same_dims(f"{nm}: shape", t, dims):
                continue

            def sound(idx):
                v = T.add(lin(w, idx), b.real(idx))
                return T.ge(t.real(idx), v) if sg > 0 else T.ge(v, t.real(idx))

            ctx.forall(f"{nm}: bounds every point of ball and box", dims, sound)

    return r


def cases():
    F = ["decomon.core.BallDomain.get_upper", "decomon.core.BallDomain.get_lower", "decomon.core.get_upper_ball_finetune",
         "decomon.core.get_lower_ball_finetune", "decomon.core.get_upper_ball", "decomon.core.get_lower_ball"]
    out = []
    for pn, p in PS.items():
        for known in (("upper", "lower"), ("upper",), ("lower",)):
            for rank in (1, 2):
                out.append(case(f"finetune p={pn} {'+'.join(known)} rank {rank}", run(p, rank, known), F))
    return out
