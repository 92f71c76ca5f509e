"""Backward merges: each returned affine form, in one operand alone, is on the right side of the given affine form of the merged value
whatever the value of the other operands."""
from oracle.lib import *
from oracle.o09 import fold, same

CASES.clear()
i = lambda rng, a, b: int(rng.integers(a, b + 1))


def one(name, mode, f, yshapes, call, wout=False, dc=False, slack=2e-6):
    def run(rng):
        yss = yshapes(rng)
        dom = Dom(rng, ("box", "ball_2")[i(rng, 0, 1)], n=i(rng, 1, 3), batch=i(rng, 1, 2))
        rs = [Relax(rng, dom, ys, mode) for ys in yss]
        base = [p for p, _ in rs[0].pts]
        for r in rs[1:]:
            r.repoint(base)
        sh = [(dom.batch,) + tuple(s) for s in yss]
        n = int(np.prod(f(*[np.zeros(s) for s in sh]).shape[1:]))
        W = None
        if wout:
            no = i(rng, 1, 3)
            W = [rnd(rng, dom.batch, n, no), rnd(rng, dom.batch, no), rnd(rng, dom.batch, n, no), rnd(rng, dom.batch, no)]
            if rng.random() < 0.3:
                W[2], W[3] = W[0].copy(), W[1] - abs(W[3])
        bs = call(rng, dom.domain, mode, [r.inputs() for r in rs], yss, [tt(w) for w in W] if wout else None)
        data = {f"operand{k}": r.data() for k, r in enumerate(rs)}
        if len(bs) != len(rs):
            raise Violation(f"{name}: {len(bs)} lists of bounds for {len(rs)} inputs", data)
        for j, p in enumerate(base):
            ys = [r.pts[j][1] for r in rs]
            bad = np.zeros(dom.batch, bool)
            for y in ys:
                bad |= np.isnan(y).reshape(dom.batch, -1).any(1)
            if bad.all():
                continue
            ys = [np.where(np.isnan(y), 0.0, y) for y in ys]
            z = f(*ys).reshape(dom.batch, -1)
            zu = zl = z
            if wout:
                zu = np.einsum("bn,bno->bo", z, W[0]) + W[1]
                zl = np.einsum("bn,bno->bo", z, W[2]) + W[3]
            m = np.where(bad[:, None], np.nan, 0.0)
            for k, b in enumerate(bs):
                sides(b, ys[k], zu + m, zl + m, f"{name}: operand {k}", slack, **data, w_out=W)

    CASES.append((f"{name} {mode}", run))


def sides(b, y, zu, zl, what, slack, /, **data):
    wu, bu, wl, bl = [nn(t) for t in b]
    y = y.reshape(len(y), -1)
    m = np.isnan(zu)
    for nm, w, c, z, sg in (("u", wu, bu, zu, 1), ("l", wl, bl, zl, -1)):
        same_shape(w, (len(y), y.shape[1], z.shape[1]), f"{what}: w_{nm}", **data)
        same_shape(c, z.shape, f"{what}: b_{nm}", **data)
        v = np.einsum("bi,bio->bo", y, w) + c
        a, d = np.where(m, 0, z), np.where(m, 0, v)
        if sg > 0:
            leq(a, d, f"{what}: given upper form above w_u.y+b_u", slack, y=y, **data)
        else:
            leq(d, a, f"{what}: given lower form below w_l.y+b_l", slack, y=y, **data)


def fn(name):
    def call(rng, dom, mode, ins, shapes, W):
        import decomon.backward_layers.utils as U

        return getattr(U, name)(*ins, *W, perturbation_domain=dom, mode=mode)

    return call


def layer(cls, src):
    def call(rng, dom, mode, ins, shapes, W):
        import decomon.backward_layers.backward_merge as BM
        import decomon.layers.decomon_merge_layers as M

        L = getattr(M, "Decomon" + cls)(perturbation_domain=dom, mode=mode) if src == "decomon" else getattr(keras().layers, cls)()
        kw = dict(perturbation_domain=dom, mode=mode) if src == "keras" else {}
        B = getattr(BM, "Backward" + cls)(L, **kw)
        return B.call([t for r in ins for t in r])

    return call


def unary(name, f, g):
    """bounds of z=f(y) in, bounds of y out: exact"""

    def run(rng):
        import decomon.backward_layers.utils as U

        B, n, no = i(rng, 1, 2), i(rng, 1, 3), i(rng, 1, 3)
        s = float(rng.choice([-2.0, -0.5, 0.0, 0.5, 3.0]))
        W = [rnd(rng, B, n, no), rnd(rng, B, no), rnd(rng, B, n, no), rnd(rng, B, no)]
        o = g(U, s, [tt(w) for w in W])
        y = rnd(rng, B, n)
        z = f(s, y)
        for k in (0, 2):
            w, b = nn(o[k]), nn(o[k + 1])
            close(np.einsum("bi,bio->bo", y, w) + b, np.einsum("bi,bio->bo", z, W[k]) + W[k + 1], f"{name}: {'upper' if k == 0 else 'lower'} form", 1e-9, y=y, scale=s, w_out=W)

    CASES.append((name, run))


OPS = {"add": np.add, "subtract": np.subtract, "maximum": np.maximum, "minimum": np.minimum, "multiply": np.multiply}
unary("backward_minus", lambda s, y: -y, lambda U, s, W: U.backward_minus(*W))
unary("backward_scale", lambda s, y: s * y, lambda U, s, W: U.backward_scale(s, *W))
for mode in ("hybrid", "ibp", "affine"):
    for n, f in OPS.items():
        one(f"backward_{n}", mode, f, same(2), fn(f"backward_{n}"), wout=True)
        one(f"Backward{n.capitalize()}", mode, f, same(2), layer(n.capitalize(), "decomon"))
    for src in ("decomon", "keras"):
        for nb in (1, 2):
            one(f"BackwardAdd {nb} inputs from {src}", mode, fold(np.add), same(nb), layer("Add", src))
        for nb in (1, 2, 3, 4):
            one(f"BackwardAverage {nb} inputs from {src}", mode, lambda *y: sum(y) / len(y), same(nb), layer("Average", src))
    one("BackwardConcatenate", mode, lambda *y: np.concatenate(y, -1), same(2, 1), layer("Concatenate", "decomon"))
