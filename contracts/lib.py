"""Shared vocabulary of the contracts: the perturbation domain interface contract, sound relaxations, goals."""
import itertools

from engine import kops as K
from engine import modular
from engine import terms as T
from engine.tensor import Tensor, all_indices, con, declare, dim, dsize, as_tensor

EPS = 1e-7
MODES = ("hybrid", "ibp", "affine")


def flat(idx):
    return tuple(i for t in idx for i in t)


def D(*ds):
    return tuple((d,) if not isinstance(d, tuple) else d for d in ds)


def unflat(ids, dims):
    """regroup a flat index list along dims"""
    out = []
    k = 0
    for d in dims:
        out.append(tuple(ids[k : k + len(d)]))
        k += len(d)
    return tuple(out)


class EXACT:
    """scenes where the domain is a single point (C25)"""

    on = False


class Scene:
    """One arbitrary point of the domain (x^) and the facts known about it."""

    def __init__(self, ctx, n_in=None, batch=None):
        self.ctx = ctx
        self.B = batch if batch is not None else (dim("B"),)
        self.N = n_in if n_in is not None else (dim("n"),)
        self.xh = declare("xh", self.B, self.N)
        self.k = itertools.count()
        self.roles = {}
        self.positive_lower = False  # precondition of log and 1/x: the constant bounds are positive

    # sum_m w[b,m,idx] xh[b,m]
    def lin(self, w, idx):
        return K._sum_atoms(
            self.N, lambda m: T.mul(w.real((idx[0], m) + tuple(idx[1:])), self.xh.real((idx[0], m)))
        )

    def affine(self, w, b, idx):
        return T.add(self.lin(w, idx), b.real(idx))

    def affine_rep(self, w, b, idx):
        """value at x^ of the affine function represented by (w, b); rank(w)==rank(b) is the identity"""
        if w.ndim == b.ndim:
            return self.xh.real(idx)
        return self.affine(w, b, idx)

    # -- abstract perturbation domain: the interface contract of get_upper / get_lower
    def domain(self, x=None):
        import decomon.core as C

        scene = self

        class AnyDomain(C.PerturbationDomain):
            _scene = scene

            def get_upper(self, x, w, b, **kw):
                return scene._dom_bound("dU", w, b, +1)

            def get_lower(self, x, w, b, **kw):
                return scene._dom_bound("dL", w, b, -1)

            def get_nb_x_components(self):
                return 2

        return AnyDomain()

    def _dom_bound(self, nm, w, b, sgn):
        self.bounds = getattr(self, "bounds", [])
        modular.USED.add("PerturbationDomain.get_upper" if sgn > 0 else "PerturbationDomain.get_lower")
        w, b = as_tensor(w), as_tensor(b)
        name = modular.fresh(nm)
        if w.ndim == b.ndim:
            dims = self.xh.dims
        else:
            dims = w.dims[:1] + w.dims[2:]
            if w.dims[0] == () and b.dims[0] != ():
                dims = b.dims[:1] + dims[1:]
        out = declare(name, *dims)

        def value(idx):
            if w.ndim == b.ndim:
                return self.xh.real(idx)
            wi = idx if w.dims[0] != () else ((),) + idx[1:]
            bi = idx if b.dims[0] != () else ((),) + idx[1:]
            return T.add(K._sum_atoms(self.N, lambda m: T.mul(w.real((wi[0], m) + tuple(idx[1:])), self.xh.real((idx[0], m)))), b.real(bi))

        if EXACT.on:
            self.bounds.append((sgn, Tensor(dims, value)))
            return self.bounds[-1][1]

        def fact(*ids):
            idx = unflat(ids, dims)
            wi = idx if w.ndim == b.ndim or w.dims[0] != () else ((),) + idx[1:]
            if w.ndim == b.ndim:
                v = self.xh.real(idx)
            else:
                bi = idx if b.dims[0] != () else ((),) + idx[1:]
                s = K._sum_atoms(self.N, lambda m: T.mul(w.real((wi[0], m) + tuple(idx[1:])), self.xh.real((idx[0], m))))
                v = T.add(s, b.real(bi))
            f = T.ge(out.real(idx), v) if sgn > 0 else T.ge(v, out.real(idx))
            if self.positive_lower:
                return [f, T.lnot(T.ge(T.ZERO, out.real(idx)))]
            return f

        self.ctx.hyp(name, fact, name, elim=True)
        self.bounds.append((sgn, out))
        return out

    # -- a sound relaxation of an arbitrary value y
    def relaxation(self, mode, ydims, dc=False, tag="", x=None, identity=False, y=None, eager=False):
        """inputs for `mode`, all of them sound at x^ for the (arbitrary) value y; returns (list, y)"""
        ydims = D(self.B, *ydims)
        wd = (ydims[0], self.N) + ydims[1:]
        n = lambda s: s + tag
        y = y if y is not None else declare(n("y"), *ydims)
        x = x if x is not None else declare("x", self.B, (con(2),), self.N)
        u, l = declare(n("u"), *ydims), declare(n("l"), *ydims)
        if identity:
            wu = wl = declare(n("wid"), *ydims)
            bu = bl = declare(n("bid"), *ydims)
        else:
            wu, bu = declare(n("wu"), *wd), declare(n("bu"), *ydims)
            wl, bl = declare(n("wl"), *wd), declare(n("bl"), *ydims)
        h, g = declare(n("h"), *ydims), declare(n("g"), *ydims)
        if EXACT.on:
            # the domain is the point x^: all the bounds are equal to y there
            rest = lambda w: Tensor(ydims, lambda i: T.sub(y.real(i), self.lin(w, i)))
            y0 = Tensor(ydims, y.real)
            bs = [x, y0, wu, rest(wu), y0, wl, rest(wl)]
            return [bs[k] for k in {"hybrid": range(7), "ibp": (1, 4), "affine": (0, 2, 3, 5, 6)}[mode]], y

        def fact(*ids):
            idx = unflat(ids, ydims)
            yy = y.real(idx)
            cs = []
            if mode in ("hybrid", "ibp"):
                cs += [T.ge(u.real(idx), yy), T.ge(yy, l.real(idx))]
            if mode in ("hybrid", "affine"):
                if identity:
                    cs += [T.eq(yy, self.xh.real(idx))]
                else:
                    cs += [T.ge(self.affine(wu, bu, idx), yy), T.ge(yy, self.affine(wl, bl, idx))]
            if dc:
                cs += [T.eq(yy, T.add(h.real(idx), g.real(idx)))]
            return cs

        # eager: also when only the bounds occur (y itself is defined by a term that does not mention its name)
        self.ctx.hyp("sound(%s)" % tag, fact, ([t.name for t in (u, l, bu, bl)] + ([y.name] if y.name else [])) if eager else [y.name])
        out = {"hybrid": [x, u, wu, bu, l, wl, bl], "ibp": [u, l], "affine": [x, wu, bu, wl, bl]}[mode]
        if dc:
            out = out + [h, g]
        if not identity:
            self.register({"u": u, "wu": wu, "bu": bu, "l": l, "wl": wl, "bl": bl}, y, ydims)
        return list(out), y

    # -- callees of the form: relaxations of y0, y1, ... in, relaxation of f(y0, y1, ...) out
    def register(self, tensors, y, ydims):
        """remember which value the named tensors enclose, element by element"""
        for role, t in tensors.items():
            self.roles[t.name] = (y.name or id(y), role, lambda ids: y.real(unflat(ids, ydims)))

    def ghost_of(self, ins, mode):
        """the value enclosed by tensors made of elements of known relaxations (slices, transposes, ... included), or None"""
        try:
            ts = [as_tensor(t) for t in ins]
        except Exception:
            return None
        names = {"hybrid": ["x", "u", "wu", "bu", "l", "wl", "bl"], "ibp": ["u", "l"], "affine": ["x", "wu", "bu", "wl", "bl"]}[mode]
        if len(ts) != len(names):
            return None
        by = dict(zip(names, ts))
        like = by["u"] if "u" in by else by["bu"]
        nb, nn = len(self.B), len(self.N)
        m = tuple(T.ivar(a) if a.kind != "con" else T.iconst(0) for a in self.N)

        def at(idx):
            got = None
            for role, t in by.items():
                if role == "x":
                    continue
                try:
                    if role[0] == "w":
                        if t.ndim != like.ndim + 1:
                            return None
                        e = _bi_w(t, idx, like, m, self.N)
                    else:
                        e = _bi(t, idx, like)
                except Exception:
                    return None
                if e.op != "app" or e.args[0] not in self.roles:
                    continue
                g, r, f = self.roles[e.args[0]]
                ids = e.args[1:]
                if r != role:
                    return None
                if role[0] == "w":
                    if ids[nb : nb + nn] != m:
                        return None
                    ids = ids[:nb] + ids[nb + nn :]
                if got is None:
                    got = (g, ids, f)
                elif got[:2] != (g, ids):
                    return None
            return got

        for idx in all_indices(like.dims):
            if at(idx) is None:
                return None

        def fn(idx):
            g, ids, f = at(idx)
            return f(ids)

        return Tensor(like.dims, fn)

    def own_domain(self, domain, mode, what):
        """the callee closes affine bounds on the domain of the layer"""
        if str(getattr(mode, "value", mode)) != "ibp":
            self.ctx.fact(f"{what}: called with the domain of the layer", getattr(domain, "_scene", None) is self, f"{domain}")

    def exact_value(self, ins, mode):
        """the value that all the bounds have to be equal to when the domain is a point"""
        try:
            ts = [as_tensor(t) for t in ins]
            if len(ts) != {"hybrid": 7, "ibp": 2, "affine": 5}[mode]:
                return None
            if mode != "affine":
                t = ts[1] if mode == "hybrid" else ts[0]
                return Tensor(t.dims, t.real)
            w, b = ts[1:3]
            return Tensor(b.dims, lambda i: self._aff(w, b, i, b))
        except Exception:
            return None

    def op_contract(self, module, name, spec, nops=2, domain=True, needs_positive=False, gives_positive=False, kwspec=False):
        """replace module.name by its contract; calls on values that are not tracked are executed.
        needs_positive / gives_positive: the constant lower bounds of the operands / of the result are positive"""
        import sys

        orig = getattr(sys.modules.get(module), name, None)
        if orig is None:
            return
        def repl(*a, **k):
            mode = str(getattr(k.get("mode", "hybrid"), "value", k.get("mode", "hybrid")))
            ops = a[:nops]
            if domain and getattr(k.get("perturbation_domain"), "_scene", None) is not self:
                return orig(*a, **k)
            if not kwspec and (len(a) > nops or set(k) - {"mode", "perturbation_domain", "dc_decomp", "slope", "finetune", "finetune_params", "clip"}):
                return orig(*a, **k)  # arguments that the contract does not know
            ys = [self.exact_value(o, mode) if EXACT.on else self.ghost_of(o, mode) for o in ops]
            if len(ops) < nops or any(y is None for y in ys) or k.get("dc_decomp"):
                return orig(*a, **k)
            for o, y in zip(ops, ys):
                self.check_relaxation(list(o), mode, y, name=f"{name} precondition")
            low = lambda o: as_tensor(o[4] if mode == "hybrid" else o[1])
            if EXACT.on:
                z = spec(*ys, *a[nops:], **k) if kwspec else spec(*ys)
                return self.relaxation(mode, z.dims[1:], tag="@" + modular.fresh(name), y=z, x=ops[0][0] if mode != "ibp" else None)[0]
            if needs_positive and mode != "affine":
                for o, y in zip(ops, ys):
                    self.ctx.forall(f"{name} precondition: positive lower bound", y.dims, lambda i: T.lnot(T.ge(T.ZERO, _bi(low(o), i, y))))
            z = spec(*ys, *a[nops:], **k) if kwspec else spec(*ys)
            out, _ = self.relaxation(mode, z.dims[1:], tag="@" + modular.fresh(name), y=z, x=ops[0][0] if mode != "ibp" else None, eager=True)
            if gives_positive and mode != "affine":
                b = low(out)
                self.ctx.hyp("positive", lambda *ids: T.lnot(T.ge(T.ZERO, b.real(unflat(ids, b.dims)))), (b.name,))
            return out

        modular.patch(module, name, repl)

    # -- goals
    def check_relaxation(self, outs, mode, y, name="out", dc=False, eps=0.0, extra=None, hints=None, x=None, slack=None):
        """outs is a sound relaxation of y at x^"""
        ctx = self.ctx
        y = as_tensor(y)
        nb = {"hybrid": 7, "ibp": 2, "affine": 5}[mode] + (2 if dc else 0)
        if not ctx.fact(f"{name}: number of tensors", len(outs) == nb, f"{len(outs)} tensors, expected {nb}"):
            return False
        outs = [as_tensor(o) for o in outs]
        x_, u, wu, bu, l, wl, bl = [None] * 7
        if mode == "hybrid":
            x_, u, wu, bu, l, wl, bl = outs[:7]
        elif mode == "ibp":
            u, l = outs[:2]
        else:
            x_, wu, bu, wl, bl = outs[:5]
        e = T.const(eps)
        E = slack or (lambda i: e)
        sh = tuple(y.shape)
        ok = True

        def shp(t, want, nm):
            return ctx.fact(f"{name}: shape of {nm}", tuple(t.shape) == tuple(want), f"{t.shape} expected {want}")

        if x_ is not None and x is not None:
            ctx.fact(f"{name}: the domain tensor is passed through", x_ is x or x_.dims == x.dims and all(
                x_.at(i) is x.at(i) for i in all_indices(x.dims)), "changed")
        if EXACT.on:
            for nm, t, w in (("upper bound", u, None), ("lower bound", l, None), ("affine upper bound", bu, wu), ("affine lower bound", bl, wl)):
                if t is None or (w is not None and w.ndim == len(sh)):
                    continue
                v = lambda i: _bi(t, i, y) if w is None else self._aff(w, t, i, y)
                if nm.endswith("upper bound"):
                    ok &= ctx.forall(f"{name}: {nm} <= y", y.dims, lambda i: T.ge(T.add(y.real(i), E(i)), v(i)), hints, extra)
                else:
                    ok &= ctx.forall(f"{name}: {nm} >= y", y.dims, lambda i: T.ge(T.add(v(i), E(i)), y.real(i)), hints, extra)
            return ok
        if u is not None and shp(u, sh, "u_c") and shp(l, sh, "l_c"):
            ok &= ctx.forall(f"{name}: u_c >= y", y.dims, lambda i: T.ge(T.add(_bi(u, i, y), E(i)), y.real(i)), hints, extra)
            ok &= ctx.forall(f"{name}: l_c <= y", y.dims, lambda i: T.ge(T.add(y.real(i), E(i)), _bi(l, i, y)), hints, extra)
        if wu is not None:
            wsh = (sh[0], dsize(self.N)) + sh[1:]
            ident = wu.ndim == len(sh)
            if ident:
                ok &= ctx.forall(f"{name}: identity relaxation", y.dims, lambda i: T.eq(y.real(i), self.xh.real(i)), hints, extra)
            elif (
                shp(wu, wsh, "w_u") and shp(wl, wsh, "w_l") and shp(bu, sh, "b_u") and shp(bl, sh, "b_l")
            ):
                ok &= ctx.forall(
                    f"{name}: w_u.x+b_u >= y", y.dims, lambda i: T.ge(T.add(self._aff(wu, bu, i, y), E(i)), y.real(i)), hints, extra
                )
                ok &= ctx.forall(
                    f"{name}: w_l.x+b_l <= y", y.dims, lambda i: T.ge(T.add(y.real(i), E(i)), self._aff(wl, bl, i, y)), hints, extra
                )
        if dc:
            h, g = outs[-2:]
            if shp(h, sh, "h") and shp(g, sh, "g"):
                ok &= ctx.forall(
                    f"{name}: h+g == y", y.dims, lambda i: T.eq(T.add(_bi(h, i, y), _bi(g, i, y)), y.real(i)), hints, extra
                )
        return ok

    def _aff(self, w, b, idx, like):
        from engine.tensor import unify

        n1 = lambda t, d: unify(like.dims[t], d)[2](idx[t]) if d != () else ()
        wi = tuple(n1(t, d) for t, d in zip([0] + list(range(1, len(idx))), (w.dims[0],) + w.dims[2:]))
        mN = unify(self.N, w.dims[1])[2]
        s = K._sum_atoms(self.N, lambda m: T.mul(w.real((wi[0], mN(m)) + wi[1:]), self.xh.real((idx[0], m))))
        return T.add(s, _bi(b, idx, like))


def _bi_w(t, idx, like, m, N):
    """element of a weight tensor at (batch, m, rest)"""
    from engine.tensor import unify

    n1 = lambda d0, d, i: () if d == () else unify(d0, d)[2](i)
    ii = [n1(like.dims[0], t.dims[0], idx[0]), unify(N, t.dims[1])[2](m)]
    for d0, d, i in zip(like.dims[1:], t.dims[2:], idx[1:]):
        ii.append(n1(d0, d, i))
    return t.real(tuple(ii))


def _bi(t, idx, like):
    """element of t at an index expressed in the dims of `like` (same sizes)"""
    from engine.tensor import unify

    ii = []
    for d0, d, i in zip(like.dims, t.dims, idx):
        ii.append(() if d == () else unify(d0, d)[2](i))
    return t.real(tuple(ii))


def case(name, run, functions=()):
    return {"name": name, "run": run, "functions": tuple(functions)}


def forward(make, spec, ydims, mode, dc=False, identity=False, eps=0.0, post=None, fact=None, hints=None, N_eq=False, ctxhook=None, **lk):
    """contract of a decomon layer: call(sound relaxation of y) is a sound relaxation of spec(layer, y)"""

    def run(ctx):
        yd = ydims() if callable(ydims) else ydims
        n_in = yd[0] if identity else None
        sc = Scene(ctx, n_in=n_in)
        dom = sc.domain()
        inputs, y = sc.relaxation(mode, yd, dc=dc, identity=identity)
        layer = make(perturbation_domain=dom, mode=mode, dc_decomp=dc, **lk)
        if ctxhook:
            ctxhook(ctx, sc, layer, y)
        outs = layer(inputs)
        z = spec(layer, y)
        x = inputs[0] if mode != "ibp" else None
        if not identity:
            sc.check_relaxation(list(outs), mode, z, dc=dc, eps=eps, x=x, hints=hints)
        else:
            sc.check_relaxation(list(outs), mode, z, dc=dc, eps=eps, x=x, hints=hints)

    return run


def nm(mode, dc=False, identity=False, *more):
    return " ".join([mode] + (["dc"] if dc else []) + (["identity input"] if identity else []) + [str(m) for m in more])
