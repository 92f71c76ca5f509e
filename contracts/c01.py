"""Box domain: get_upper / get_lower are the exact extrema of an affine function over the box."""
from engine import kops as K
from engine import terms as T
from engine.tensor import con, declare, dim
from .lib import case, unflat, D


def _box(ctx, rank, wb=True):
    import decomon.core as C

    B, N = (dim("B"),), (dim("n"),)
    out = [(dim(f"o{i}"),) for i in range(rank)]
    x = declare("x", B, (con(2),), N)
    w = declare("w", B if wb else (), N, *out)
    b = declare("b", B if wb else (), *out)
    xh = declare("xh", B, N)
    lo = lambda bi, m: x.real((bi, (T.iconst(0),), m))
    hi = lambda bi, m: x.real((bi, (T.iconst(1),), m))

    def dom(bi, m):
        v = xh.real(((bi,), (m,)))
        return [T.ge(hi((bi,), (m,)), v), T.ge(v, lo((bi,), (m,)))]

    ctx.hyp("x^ in box", dom, ("xh",))
    return C, B, N, out, x, w, b, xh, lo, hi


def run_rank(rank, wb):
    def run(ctx):
        C, B, N, out, x, w, b, xh, lo, hi = _box(ctx, rank, wb)
        d = C.BoxDomain()
        up = d.get_upper(x, w, b)
        dn = d.get_lower(x, w, b)
        dims = D(B, *out)
        for nm, t, s in (("get_upper", up, 1), ("get_lower", dn, -1)):
            if not ctx.same_dims(f"{nm}: shape", t, dims):
                continue

            def val(idx, pt):
                wi = idx if wb else ((),) + idx[1:]
                return T.add(
                    K._sum_atoms(N, lambda m: T.mul(w.real((wi[0], m) + idx[1:]), pt(idx[0], m))), b.real(wi)
                )

            def sound(idx):
                v = val(idx, lambda bi, m: xh.real((bi, m)))
                return T.ge(t.real(idx), v) if s > 0 else T.ge(v, t.real(idx))

            ctx.forall(f"{nm}: bounds every point of the box", dims, sound)

            def attained(idx):
                wi = idx if wb else ((),) + idx[1:]

                def corner(bi, m):
                    c = T.ge(w.real((wi[0], m) + idx[1:]), T.ZERO)
                    return T.ite(c, hi(bi, m), lo(bi, m)) if s > 0 else T.ite(c, lo(bi, m), hi(bi, m))

                return T.eq(t.real(idx), val(idx, corner))

            ctx.forall(f"{nm}: attained at a corner", dims, attained)

    return run


def run_identity(ctx):
    """rank(w) == rank(b) stands for the identity function"""
    C, B, N, out, x, w, b, xh, lo, hi = _box(ctx, 1)
    w = declare("wid", B, N)
    b = declare("bid", B, N)
    d = C.BoxDomain()
    up, dn = d.get_upper(x, w, b), d.get_lower(x, w, b)
    if ctx.same_dims("get_upper: shape", up, (B, N)) and ctx.same_dims("get_lower: shape", dn, (B, N)):
        ctx.forall("identity: upper", D(B, N), lambda i: T.eq(up.real(i), hi(*i)))
        ctx.forall("identity: lower", D(B, N), lambda i: T.eq(dn.real(i), lo(*i)))
        ctx.forall(
            "identity: bounds x^", D(B, N), lambda i: T.land(T.ge(up.real(i), xh.real(i)), T.ge(xh.real(i), dn.real(i)))
        )


def cases():
    F = ["decomon.core.BoxDomain.get_upper", "decomon.core.BoxDomain.get_lower", "decomon.core.get_upper_box", "decomon.core.get_lower_box"]
    out = []
    for rank in (1, 2, 3, 4):
        for wb in (True, False):
            out.append(case(f"box rank {rank} {'batched' if wb else 'shared'} weights", run_rank(rank, wb), F))
    out.append(case("box identity representation", run_identity, F))
    return out
