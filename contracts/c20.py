"""Adversarial scores (get_adv_box, check_adv_box, get_adv_noise): a negative score certifies that no target label reaches a source
label in the domain, a positive score of check_adv_box that some does.

The masks are arbitrary 0/1 arrays in which one source s* and one target t*, arbitrary too, are set."""
import itertools

import numpy as np

from engine import tensor as S
from engine import terms as T
from engine.prover import Canon, Prover, _flat_ext
from engine.tensor import Unsupported
from .c02 import PS
from .c18 import MODES, Wrapped, check, refine_contract
from .c19 import Ball, T_sub
from .lib import *
from .lib import _bi

SEVERAL = (([[1, 1, 0]], None), ([[1, 0, 1], [0, 1, 0]], None), ([[1, 1, 0], [1, 0, 0]], [[0, 0, 1], [0, 1, 1]]), ([[1, 1]], [[1, 1]]))
PLAIN = lambda nm: lambda p, i: T.mask(nm, *p, i)  # arbitrary 0/1 arrays
FORMS = ("mask", "indices", "index")


class Adv:
    """labels of a Wrapped or Ball scene"""

    def labels(self, targets, form="indices", plain=None):
        self.ext = []
        self.chosen = {}
        S.ALLEXT[:] = [self.extremum]
        self.O = self.out[0]
        o = self.O[0]
        # two distinct labels
        self.s, self.t = T.iinj("s*"), T.iinj("t*")
        # arbitrary 0/1 masks with the bit of s* (t*) set
        def src(p, i):
            if targets is None:
                # without targets every label which is not a source is one: t* is not a source
                return T.add(T.delta(i, self.s), T.mul(T.sub(T.ONE, T.delta(i, self.s)), T.sub(T.ONE, T.delta(i, self.t)), T.mask("src", *p, i)))
            return T.add(T.delta(i, self.s), T.mul(T.sub(T.ONE, T.delta(i, self.s)), T.mask("src", *p, i)))

        tgt = lambda p, i: T.add(T.delta(i, self.t), T.mul(T.sub(T.ONE, T.delta(i, self.t)), T.mask("tgt", *p, i)))
        if plain:
            src, tgt = plain("src"), plain("tgt")
        self.given = {"source": self.given_labels("source", src, form)}
        if targets is not None:
            self.given["target"] = self.given_labels("target", tgt, targets)

        def mask(labels, n):
            """get_labels_mask by contract (proved by the cases of this name)"""
            labels = as_tensor(labels)
            n = int(n)
            self.ctx.fact("get_labels_mask: number of outputs", n == dsize(self.O), f"{n}")
            if labels.shape[-1] == n:
                return labels
            for nm, (L, m, form) in self.given.items():
                if form == "mask":
                    continue
                rows = []
                for (r,) in all_indices([labels.dims[0]]):
                    p = self.row_of(labels, L, r, form)
                    if p is None:
                        break
                    rows.append((r, p))
                else:
                    tab = {tuple(None if k.op != "ic" else k.args[0] for k in r): p for r, p in rows}
                    r0 = {tuple(None if k.op != "ic" else k.args[0] for k in r): r for r, p in rows}

                    def f(i, tab=tab, r0=r0, m=m):
                        k = tuple(None if a.op != "ic" else a.args[0] for a in i[0])
                        return m(T_sub(tab[k], r0[k], i[0]), i[1][0])

                    return Tensor([labels.dims[0], self.O], f)
            self.ctx.fact("get_labels_mask: the labels of the user", False, f"{labels}")
            return labels

        self.seen = None
        modular.patch("decomon.wrapper", "get_labels_mask", mask)

    def extremum(self, t, kind):
        """numpy: the extremum of an array bounds each of its entries, and is one of them"""
        c = declare(modular.fresh(kind))
        self.ext.append((c, t, kind))
        return c

    def penalized(self, e):
        """the entry is shifted by the extent of the array of margins: it is not that of an admitted pair"""
        names = {c.name for c, _, _ in self.ext}
        return any(n.op == "app" and n.args[0] in names for n in T.walk(e, set()))

    def label_of(self, f):
        """the label (s* or t*) to look at along the axis which f reduces, whatever the order in which the axes are reduced"""
        b, body = f.args
        if f in self.chosen:
            return self.chosen[f]
        if body.op == f.op:
            r = self.s
            at = lambda x, y: T.subst(T.subst(body.args[1], {b: x}), {body.args[0]: y})
            if self.penalized(at(self.s, self.t)) and not self.penalized(at(self.t, self.s)):
                r = self.t
        else:
            r = self.t
            at = lambda x: T.subst(body, {b: x})
            if self.penalized(at(self.t)) and not self.penalized(at(self.s)):
                r = self.s
        self.chosen[f] = r
        return r

    def row_of(self, labels, L, r, form):
        if form == "index":
            # the same label for each sample: nothing to align
            v = labels.real((r,) + tuple(() for d in labels.dims[1:])) if not any(labels.dims[1:]) else None
            return r if v is T.const(L) else None
        for (p,) in all_indices([self.B]):
            q = r if not all(k.op == "ic" for k in p) else p
            if len(q) != len(p):
                # the rows of sub-boxes: the index of the sample is a part of that of the row
                q = tuple(k for k in r if k.op != "ic") if not all(k.op == "ic" for k in p) else p
            if len(q) != len(p):
                continue
            if labels.shape[1:] != L.shape[1:]:
                return None
            j = (T.ivar(L.dims[1][0]),)
            if labels.real((r, j)) is L.real((q, j)):
                return q
        return None

    def given_labels(self, nm, m, form):
        if form == "mask":
            return Tensor([self.B, self.O], lambda i: m(i[0], i[1][0])), m, form
        if form == "index":
            k = {"source": 3, "target": 5}[nm]
            return k, (lambda p, i: m((), i)), form
        return declare(f"labels_{nm}", self.B, (dim(f"nlab_{nm}"),)), m, form

    def user_labels(self):
        g = self.given
        kw = {"source_labels": g["source"][0]}
        if "target" in g:
            kw["target_labels"] = g["target"][0]
        return kw


class AdvBox(Adv, Wrapped):
    pass


class AdvBall(Adv, Ball):
    pass


def check_upper(s, res):
    t = as_tensor(res)
    if s.ctx.fact("score: one number per sample", t.shape == (dsize(s.B),), f"{t.shape}"):
        d = lambda i: T.sub(s.y.real((i[0], (s.t,))), s.y.real((i[0], (s.s,))))
        def choose(f):
            """the entry (t*, s*) of the array of margins, its axes reduced one after the other"""
            if f.op in ("min", "max"):
                # the score of the sub-box of the point
                def of(a):
                    return any(n.op == "app" and n.args[0] in s.known and s.known[n.args[0]](n.args[1:]) for n in T.walk(a, set()))

                c = [a for a in _flat_ext(f.op, f) if of(a)]
                return c[0] if len(c) == 1 else None
            if f.args[0].args[0] != s.O[0]:
                return None
            return s.label_of(f)

        s.ctx.choose = choose

        def leaf(a):
            if a.op == "min":
                return T.add(*[leaf(x) for x in _flat_ext("min", a)])
            if a.op == "max":
                c = choose(a)
                return leaf(c) if c is not None else T.ZERO
            if a.op == "maxo":
                w = choose(a)
                return leaf(T.subst(a.args[1], {a.args[0]: w})) if w is not None else T.ZERO
            return a

        hint = None
        if isinstance(s, Ball):
            for i in all_indices([s.B]):
                leaf(t.real(i))
            hint = s.pair_hints() if s.aligned else None
        for i in all_indices([s.B]):
            s.ctx.vac_goal = T.ge(leaf(t.real(i)), d(i))
        for i in all_indices([s.B]):
            t.real(i)
        s.ctx.forall("score: above the margin of t* over s*", [s.B], lambda i: T.ge(t.real(i), d(i)), hint)


def check_admitted(s, res, targets):
    """each score is that of an admitted pair: it is below every M that bounds the margins of the admitted pairs"""
    res = as_tensor(res)
    O = s.O[0]
    wit = tuple(T.iinj(f"admitted {k}") for k in "ts")
    t, q = T.ivar(O, "t"), T.ivar(O, "s")
    canon = Canon()
    rows = lambda U, i: [tuple(dict(zip([k for k in r if k.op != "ic"], [k for k in i if k.op != "ic"])).get(k, k) for k in r) for (r,) in all_indices([U.dims[0]])]
    if not s.ctx.fact("score: one number per sample", res.shape == (dsize(s.B),), f"{res.shape}"):
        return
    for (p,) in all_indices([s.B]):
        parts = [res.real((p,))]
        while any(a.op in ("min", "max") for a in parts):
            parts = [b for a in parts for b in (_flat_ext(a.op, a) if a.op in ("min", "max") else [a])]
        for k, a in enumerate(parts):
            bits = lambda vt, vs: {("src", q): vs, ("tgt", t): vt, ("src", t): 1 - vt} if targets is None else {("src", q): vs, ("tgt", t): vt}
            e = entry(a, t, q, O, bits(1, 1), s)
            names = {n.args[0] for n in T.walk(e, set()) if n.op == "app"}
            mine = [(c, U, kind) for c, U, kind in s.ext if c.name in names]
            if not s.ctx.fact(f"penalty {k}", len(mine) == 2 and mine[0][1] is mine[1][1] and {m[2] for m in mine} == {"max", "min"}, f"{mine}"):
                continue
            (cmax,), (cmin,) = ([c for c, _, kind in mine if kind == nm] for nm in ("max", "min"))
            U = mine[0][1]
            here = with_masks(e, bits(1, 1))
            one = any(canon.canon(T.sub(U.real((r, (t,), (q,))), here)) is T.ZERO for r in rows(U, p))
            s.ctx.fact(f"penalty {k}: that of the array of margins", one, "another array")
            M, w = T.app("M", *p), T.app("U", *p, *wit)
            facts = [T.ge(M, w), T.ge(w, cmin.real(())), T.ge(cmax.real(()), here)]
            for vt, vs in itertools.product((0, 1), (0, 1)):
                s.ctx.prove(f"score {k}: that of an admitted pair, target bit {vt} source bit {vs}", T.ge(M, with_masks(e, bits(vt, vs))), extra=facts + ([T.ge(M, here)] if vt and vs else []))


def run_box(mode, targets=None, form="indices", raw=1, B=None, keras=False, which=0, only=False, **kw):
    def r(ctx):
        import decomon.core as C
        import decomon.wrapper as W

        b = (dim("B"),) if B is None else (con(B),)
        s = AdvBox(ctx, b, [(dim("o"),)], raw)
        s.which = which
        lo, hi = s.user = s.box()
        s.labels(targets, form, PLAIN if only else None)
        refine_contract(s)
        m = s.user_model(mode, C.BoxDomain(), keras)
        res = W.get_adv_box(m, lo, hi, **s.user_labels(), **kw)
        check_admitted(s, res, targets) if only else check_upper(s, res)

    return r


class CheckBox(Adv, Wrapped):
    """lower bounds on the worst margin: for every point x of a box, l_t(x) <= f_t(x) and f_s(x) <= u_s(x); M bounds every admitted
    margin f_t(x) - f_s(x) over the box of the user"""

    def row_contains(self, z, r, p):
        m = tuple(T.ivar(a) for a in self.N)
        lo, hi = z.real((r, (T.iconst(0),), m)), z.real((r, (T.iconst(1),), m))
        ok = lambda g: g is T.TRUE or Prover(self.ctx.hyps, timeout=5.0).prove(g).ok
        return ok(T.ge(self.hi.real((p, m)), hi)) and ok(T.ge(lo, self.lo.real((p, m)))) and ok(T.ge(hi, lo))

    def outputs(self, m, z, mode, ball):
        z = as_tensor(z)
        if not self.ctx.fact("input of the converted model: shape", z.shape[1:] == (2, dsize(self.N)), f"{z.shape}"):
            raise ValueError("input of the converted model")
        self.n += 1
        k, Bz, out = self.n, z.dims[0], self.out
        o = {nm: declare(f"{nm}{k}", Bz, *([self.N] if nm[0] == "w" else []), *out) for nm in ("u", "l", "wu", "wl", "bu", "bl")}
        self.calls = getattr(self, "calls", []) + [(z, o, self.rows(z, self.row_contains))]
        u, l, wu, bu, wl, bl = [o[nm] for nm in ("u", "l", "wu", "bu", "wl", "bl")]
        return {"hybrid": [z, u, wu, bu, l, wl, bl], "ibp": [u, l], "affine": [z, wu, bu, wl, bl]}[mode]


def run_check(mode, targets=None, form="indices", raw=1, B=None, keras=False, **kw):
    def r(ctx):
        import decomon.core as C
        import decomon.wrapper as W

        b = (dim("B"),) if B is None else (con(B),)
        s = CheckBox(ctx, b, [(dim("o"),)], raw)
        s.which = 0
        lo, hi = s.user = s.box()
        s.labels(targets, form, PLAIN)
        m = s.user_model(mode, C.BoxDomain(), keras)
        res = as_tensor(W.check_adv_box(m, lo, hi, **s.user_labels(), **kw))
        if not ctx.fact("score: one number per sample", res.shape == (dsize(s.B),), f"{res.shape}"):
            return
        if not ctx.fact("one array of margins for each call of the model", len(s.ext) == 2 * len(s.calls), f"{len(s.ext)}"):
            return
        O = s.O[0]
        wit = tuple(T.iinj(f"admitted {k}") for k in "ts")
        covered = set()
        for c, (z, o, found) in enumerate(s.calls):
            (cmax, U, k1), (cmin, U2, k2) = s.ext[2 * c : 2 * c + 2]
            ctx.fact("largest minus smallest margin", U is U2 and (k1, k2) == ("max", "min"), f"{k1} {k2}")
            gap = declare(f"gap{c}", z.dims[0], s.O, s.O)
            ctx.hyp("gap >= 0", lambda *ids, n=gap.name, d=gap.dims, g=gap: T.ge(g.real(unflat(ids, d)), T.ZERO), (gap.name,))
            for (r_,) in all_indices([z.dims[0]]):
                for p in s.points_of(found, r_):
                    covered.add(tuple(None if q.op != "ic" else q.args[0] for q in p))
                    t, q = T.ivar(O, "t"), T.ivar(O, "s")
                    i3 = (r_, (t,), (q,))
                    if mode == "ibp":
                        low = T.sub(o["l"].real((r_, (t,))), o["u"].real((r_, (q,))))
                    else:
                        dw = lambda a: T.sub(o["wl"].real((r_, a, (t,))), o["wu"].real((r_, a, (q,))))
                        corner = lambda a: T.ite(T.ge(dw(a), T.ZERO), z.real((r_, (T.iconst(1),), a)), z.real((r_, (T.iconst(0),), a)))
                        mm = tuple(T.ivar(a) for a in s.N)
                        ctx.prove("the corner is a point of the box", T.land(T.ge(s.hi.real((p, mm)), corner(mm)), T.ge(corner(mm), s.lo.real((p, mm)))))
                        low = T.add(K._sum_atoms(s.N, lambda a: T.mul(dw(a), corner(a))), o["bl"].real((r_, (t,))), T.neg(o["bu"].real((r_, (q,)))))
                    # f_t(x) - f_s(x) at the corner, for an admitted pair, is low + gap, and M is above it
                    M1 = T.add(low, gap.real(i3))
                    ctx.prove("margin of an admitted pair: below one that is reached in the box", T.ge(M1, U.real(i3)))
                    # M >= U(admitted pairs); some pair is admitted
                    M = T.app("M", *p)
                    u = lambda a, b: T.app("U", *r_, a, b)
                    here = U.real(i3)
                    facts = [T.ge(M, u(*wit)), T.ge(u(*wit), cmin.real(())), T.ge(cmax.real(()), here)]
                    bits = lambda vt, vs: {("src", q): vs, ("tgt", t): vt, ("src", t): 1 - vt} if targets is None else {("src", q): vs, ("tgt", t): vt}
                    goal = T.ge(M, entry(res.real((p,)), t, q, O, bits(1, 1), s))
                    for vt, vs in itertools.product((0, 1), (0, 1)):
                        g = with_masks(goal, bits(vt, vs))
                        ctx.prove(f"score: below M, target bit {vt} source bit {vs}", g, extra=facts + ([T.ge(M, here)] if vt and vs else []))
        ctx.fact("each sample is scored", covered == {tuple(None if q.op != "ic" else q.args[0] for q in i[0]) for i in all_indices([s.B])}, f"{covered}")

    return r


def entry(a, t, s, O, admitted=None, scene=None):
    """generic entry of max_s max_t (or max_t max_s: the order which leaves the entry of an admitted pair as it is)"""
    if a.op == "maxo" and a.args[0].args[0] == O and a.args[1].op == "maxo" and a.args[1].args[0].args[0] == O:
        b1, b2, body = a.args[0], a.args[1].args[0], a.args[1].args[1]
        at = lambda x, y: T.subst(T.subst(body, {b1: x}), {b2: y})
        e, e2 = at(s, t), at(t, s)
        if scene is not None and scene.penalized(with_masks(e, admitted)) and not scene.penalized(with_masks(e2, admitted)):
            return e2
        return e
    raise Unsupported("the score is not the largest entry of an array of margins")


def with_masks(g, val):
    def f(n):
        if n.op == "mask" and (n.args[0], n.args[-1]) in val:
            return T.const(val[n.args[0], n.args[-1]])
        return n

    return T.map_terms(g, f)


def run_back(mode, method="crown", targets=None, form="indices", B=None, which=0, only=False, **kw):
    """bounds given on the outputs, one source label"""

    def r(ctx):
        import decomon.core as C
        import decomon.wrapper as W

        b = (dim("B"),) if B is None else (con(B),)
        s = AdvBox(ctx, b, [(dim("o"),)], 1)
        s.which = which
        lo, hi = s.user = s.box()
        s.labels(targets, form, lambda nm: lambda p, i: T.delta(i, s.s) if nm == "src" else T.add(T.delta(i, s.t), T.mul(T.sub(T.ONE, T.delta(i, s.t)), T.mask(nm, *p, i))))
        refine_contract(s)
        m = s.user_model(mode, C.BoxDomain(), back=method)
        check_upper(s, W.get_adv_box(m, lo, hi, **s.user_labels(), **kw))

    return r


def run_sources(mode, source, target=None, **kw):
    """bounds given on the outputs, several source labels, given masks"""

    def r(ctx):
        import decomon.core as C
        import decomon.wrapper as W

        S_, n = np.array(source), len(source[0])
        s = AdvBox(ctx, (con(len(S_)),) if len(S_) > 1 else (), [(con(n),)], 1)
        s.which = 0
        s.ext, S.ALLEXT[:] = [], [s.extremum]
        lo, hi = s.user = s.box()
        refine_contract(s)
        m = s.user_model(mode, C.BoxDomain(), back="crown")
        res = as_tensor(W.get_adv_box(m, lo, hi, S_, None if target is None else np.array(target), **kw))
        Tm = 1 - S_ if target is None else np.array(target)
        if ctx.fact("score: one number per sample", res.shape == (len(S_),), f"{res.shape}"):
            for b in range(len(S_)):
                for i, j in itertools.product(range(n), range(n)):
                    if Tm[b, i] and S_[b, j]:
                        at = (T.iconst(b),) if len(S_) > 1 else ()
                        y = lambda k: s.y.real((at, (T.iconst(k),)))
                        ctx.prove(f"score {b}: above the margin of {i} over {j}", T.ge(res.real((at,)), T.sub(y(i), y(j))))

    return r


def run_noise(mode, p, targets=None, form="indices", raw=1, B=None, keras=False, radius="positive", only=False, **kw):
    def r(ctx):
        import decomon.core as C
        import decomon.wrapper as W

        b = (dim("B"),) if B is None else (con(B),)
        e0 = declare("eps")
        # the radius and the norm for which the model was converted differ from those asked for
        old = C.BallDomain(eps=declare("eps0"), p=2 if p != 2 else 1)
        asked = e0
        if radius == "zero":
            e0 = asked = 0
        elif radius == "default":
            asked = -1.0
            old = C.BallDomain(eps=e0, p=p)
        if radius != "zero":
            ctx.hyp("eps > 0", lambda: T.gt(e0.real(()), T.ZERO))
        s = AdvBall(ctx, b, [(dim("o"),)], p, e0, raw)
        s.which = 0
        s.labels(targets, form, PLAIN if only else None)
        m = s.user_model(mode, old, keras)
        res = W.get_adv_noise(m, s.user(), eps=asked, p=p if radius != "default" else 1, **s.user_labels(), **kw)
        check_admitted(s, res, targets) if only else check_upper(s, res)

    return r


def run_labels(B, n):
    """prepare_labels then get_labels_mask on every label, for small numbers of samples and outputs"""

    def r(ctx):
        import decomon.wrapper as W

        bad = {}

        def fact(nm, ok, detail):
            bad.setdefault(nm, None)
            if not ok and bad[nm] is None:
                bad[nm] = detail

        if n > 1:
            for v in range(n):
                want = np.zeros((B, n), int)
                want[:, v] = 1
                for nm, given in (("int", v), ("numpy integer", np.int_(v))):
                    got = W.get_labels_mask(W.prepare_labels(given, B), n)
                    fact(nm, got.shape == (B, n) and (got == want).all(), f"{given}: {got}")
        for k in range(1, min(n, 3)):
            for lab in itertools.product(range(n), repeat=B * k):
                L = np.array(lab).reshape((B, k))
                want = np.zeros((B, n), int)
                for b in range(B):
                    for v in L[b]:
                        want[b, v] = 1
                forms = [("array", L), ("list", L.tolist())] + ([("vector", L[:, 0]), ("list of integers", L[:, 0].tolist())] if k == 1 else [])
                for nm, given in forms:
                        g = np.array(given)
                        got = W.get_labels_mask(W.prepare_labels(given, B), n)
                        fact(nm, got.shape == (B, n) and (got == want).all(), f"{given}: {got}")
                        fact(nm + ": left as it was", (np.array(given) == g).all(), f"{given}")
        for bits in itertools.product((0, 1), repeat=B * n) if B * n <= 6 else ():
            m = np.array(bits).reshape((B, n))
            for nm, given in (("mask", m), ("mask as a list", m.tolist()), ("flat mask", m.reshape(-1)), ("mask with real numbers", m.astype(float))):
                got = W.get_labels_mask(W.prepare_labels(given, B), n)
                fact(nm, got.shape == (B, n) and (got == m).all(), f"{given}: {got}")
        for nm, d in bad.items():
            ctx.fact(nm, d is None, d)

    return r


def cases():
    F = ["decomon.wrapper.get_adv_box"]
    out = []
    for B, n in itertools.product((1, 2, 3), (2, 3, 4)):
        out.append(case(f"bounded: labels of {B} samples, {n} outputs", run_labels(B, n), ["decomon.wrapper.prepare_labels", "decomon.wrapper.get_labels_mask"]))
    for mode in MODES:
        for tg, form in itertools.product((None,) + FORMS, FORMS):
            out.append(case(f"adv box {mode} source as {form} target as {tg}", run_box(mode, tg, form), F))
        out.append(case(f"adv box {mode} keras model", run_box(mode, keras=True), F))
        out.append(case(f"adv box {mode} input axes 3", run_box(mode, raw=3), F))
        for tg, form in ((None, "mask"), (None, "indices"), ("indices", "indices"), ("mask", "index"), ("index", "mask")):
            for B, bs in ((3, 2), (2, 5), (4, 2), (3, 1)):
                out.append(case(f"adv box {mode} source as {form} target as {tg} {B} samples by {bs}", run_box(mode, tg, form, B=B, batch_size=bs), F))
            for n in (2, 4):
                for w in range(n):
                    out.append(case(f"adv box {mode} source as {form} target as {tg} {n} sub-boxes, point in {w}", run_box(mode, tg, form, 2, which=w, n_sub_boxes=n), F))
            for w in (0, 1):
                out.append(case(f"adv box {mode} source as {form} target as {tg} 3 samples of 2 sub-boxes by 4, point in {w}", run_box(mode, tg, form, B=3, which=w, n_sub_boxes=3, batch_size=4), F))
        for tg, form in itertools.product((None,) + FORMS, FORMS):
            nm = f"admitted pairs, source as {form} target as {tg}: adv"
            out.append(case(f"{nm} box {mode}", run_box(mode, tg, form, only=True), F))
            out.append(case(f"{nm} box {mode} 3 samples by 2", run_box(mode, tg, form, B=3, batch_size=2, only=True), F))
            out.append(case(f"{nm} box {mode} 2 sub-boxes", run_box(mode, tg, form, 2, n_sub_boxes=2, only=True), F))
            for pn, p in PS.items():
                out.append(case(f"{nm} noise p={pn} {mode}", run_noise(mode, p, tg, form, only=True), ["decomon.wrapper.get_adv_noise"]))
            out.append(case(f"{nm} noise {mode} 3 samples by 2", run_noise(mode, np.inf, tg, form, B=3, batch_size=2, only=True), ["decomon.wrapper.get_adv_noise"]))
        for method in ("crown", "forward-hybrid"):
            for tg, form in itertools.product((None,) + FORMS, FORMS):
                nm = f"adv box {mode} {method} bounds given on the outputs, source as {form} target as {tg}"
                out.append(case(nm, run_back(mode, method, tg, form), F))
                out.append(case(f"{nm} 3 samples by 2", run_back(mode, method, tg, form, B=3, batch_size=2), F))
                for w in (0, 1):
                    out.append(case(f"{nm} 2 sub-boxes, point in {w}", run_back(mode, method, tg, form, which=w, n_sub_boxes=2), F))
        for k, (sm, tm) in enumerate(SEVERAL):
            out.append(case(f"adv box {mode} several source labels {k}", run_sources(mode, sm, tm), F))
            out.append(case(f"adv box {mode} several source labels {k} by 1", run_sources(mode, sm, tm, batch_size=1), F))
        F3 = ["decomon.wrapper.check_adv_box"]
        for tg, form in itertools.product((None,) + FORMS, FORMS):
            nm = f"check adv box {mode} source as {form} target as {tg}"
            out.append(case(nm, run_check(mode, tg, form), F3))
            for B, bs in ((3, 2), (2, 5), (4, 2)):
                out.append(case(f"{nm} {B} samples by {bs}", run_check(mode, tg, form, B=B, batch_size=bs), F3))
        out.append(case(f"check adv box {mode} keras model", run_check(mode, keras=True), F3))
        out.append(case(f"check adv box {mode} input axes 3", run_check(mode, raw=3), F3))
        F2 = ["decomon.wrapper.get_adv_noise"]
        for pn, p in PS.items():
            for tg, form in ((None, "mask"), (None, "indices"), ("indices", "index"), ("mask", "indices")):
                nm = f"adv noise p={pn} {mode} source as {form} target as {tg}"
                out.append(case(nm, run_noise(mode, p, tg, form), F2))
                for B, bs in ((3, 2), (2, 5), (4, 2)):
                    out.append(case(f"{nm} {B} samples by {bs}", run_noise(mode, p, tg, form, B=B, batch_size=bs), F2))
            out.append(case(f"adv noise p={pn} {mode} keras model", run_noise(mode, p, keras=True), F2))
            out.append(case(f"adv noise p={pn} {mode} input axes 3", run_noise(mode, p, raw=3), F2))
            for radius in ("zero", "default"):
                out.append(case(f"adv noise p={pn} {mode} radius {radius}", run_noise(mode, p, radius=radius), F2))
    return out
