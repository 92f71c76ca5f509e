"""Splitting a box (refine_boxes) and scoring it by sub-boxes (refine_box).

The real code runs on arrays of symbolic numbers; shapes and numbers of sub-boxes are enumerated, every choice of axis (largest axis
or random) and of box is explored, so nothing depends on which one is taken."""
import itertools
import math

import numpy as np

from engine import terms as T
from engine.tensor import Unsupported, declare
from .lib import case, modular


class Num:
    """a real number"""

    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    @staticmethod
    def of(v):
        return v.t if isinstance(v, Num) else T.const(v)

    def __add__(self, o):
        return Num(T.add(self.t, Num.of(o))) if not isinstance(o, np.ndarray) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return Num(T.sub(self.t, Num.of(o))) if not isinstance(o, np.ndarray) else NotImplemented

    def __rsub__(self, o):
        return Num(T.sub(Num.of(o), self.t))

    def __mul__(self, o):
        return Num(T.mul(self.t, Num.of(o))) if not isinstance(o, np.ndarray) else NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Num):
            raise Unsupported("division by a number of the user")
        return Num(T.scale(1 / T.const(o).args[0] if T.const(o).op == "const" else 1 / o, self.t))

    def __neg__(self):
        return Num(T.neg(self.t))

    def __abs__(self):
        return Num(T.tabs(self.t))

    def _cmp(self, o):
        raise Unsupported("a branch on the numbers of the user")

    __lt__ = __le__ = __gt__ = __ge__ = _cmp


def symbolic(a):
    return isinstance(a, np.ndarray) and a.dtype == object


class Choices:
    """every sequence of choices, one run for each"""

    def __init__(self):
        self.prefix, self.log = [], []

    def pick(self, n):
        k = len(self.log)
        v = self.prefix[k] if k < len(self.prefix) else 0
        self.log.append((v, n))
        return v

    def next(self):
        log = self.log
        while log and log[-1][0] + 1 >= log[-1][1]:
            log.pop()
        if not log:
            return False
        self.prefix = [v for v, _ in log[:-1]] + [log[-1][0] + 1]
        self.log = []
        return True


class Random:
    def __init__(self, ch):
        self.ch = ch

    def randint(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        if size is None:
            return int(low) + self.ch.pick(int(high) - int(low))
        a = np.empty(size, int)
        for i in np.ndindex(a.shape):
            a[i] = int(low) + self.ch.pick(int(high) - int(low))
        return a

    def choice(self, a, *r, **k):
        a = np.arange(a) if isinstance(a, int) else np.asarray(a)
        return a[self.ch.pick(len(a))]

    def __getattr__(self, n):
        raise Unsupported(f"numpy.random.{n}")


class NPS:
    """numpy on arrays of numbers; argmax and random draws are arbitrary choices"""

    def __init__(self, ch):
        self.ch = ch
        self.random = Random(ch)

    def __getattr__(self, n):
        return getattr(np, n)

    def _make(self, shape, v):
        a = np.empty(shape, dtype=object)
        a[...] = v
        return a

    def zeros(self, shape, dtype=None, **k):
        return self._make(shape, 0.0) if dtype in (None, float) else np.zeros(shape, dtype)

    def ones(self, shape, dtype=None, **k):
        return self._make(shape, 1.0) if dtype in (None, float) else np.ones(shape, dtype)

    def empty(self, shape, dtype=None, **k):
        return self._make(shape, Num(T.app("uninitialised"))) if dtype in (None, float) else np.empty(shape, dtype)

    def full(self, shape, v, dtype=None, **k):
        return self._make(shape, v) if dtype in (None, float) else np.full(shape, v, dtype)

    def zeros_like(self, a, **k):
        return self._make(a.shape, 0.0) if symbolic(a) else np.zeros_like(a, **k)

    def _arg(self, a, axis=None, keepdims=False, **k):
        a = np.asarray(a)
        if axis is None:
            return self.ch.pick(a.size)
        sh = list(a.shape)
        n = sh.pop(axis)
        out = np.empty(sh, dtype=int)
        for i in np.ndindex(*sh):
            out[i] = self.ch.pick(n)
        return np.expand_dims(out, axis) if keepdims else out if out.ndim else int(out)

    def argmax(self, a, axis=None, **k):
        return self._arg(a, axis, **k) if np.asarray(a).dtype == object else np.argmax(a, axis=axis, **k)

    def argmin(self, a, axis=None, **k):
        return self._arg(a, axis, **k) if np.asarray(a).dtype == object else np.argmin(a, axis=axis, **k)

    def _ext(self, f, g, a, axis=None, keepdims=False):
        a = np.asarray(a)
        if a.dtype != object:
            return g(a, axis=axis, keepdims=keepdims)
        if axis is None:
            a, axis = a.reshape(-1), 0
        sh = list(a.shape)
        n = sh.pop(axis)
        out = np.empty(sh, dtype=object)
        m = np.moveaxis(a, axis, 0)
        for i in np.ndindex(*sh):
            v = Num.of(m[(0,) + i])
            for k in range(1, n):
                v = f(v, Num.of(m[(k,) + i]))
            out[i] = Num(v)
        out = np.expand_dims(out, axis) if keepdims else out
        return out if out.ndim else out[()]

    def max(self, a, axis=None, keepdims=False):
        return self._ext(T.tmax, np.max, a, axis, keepdims)

    def min(self, a, axis=None, keepdims=False):
        return self._ext(T.tmin, np.min, a, axis, keepdims)

    amax, amin = max, min

    def _el(self, f, g, a, b):
        if not (symbolic(np.asarray(a)) or symbolic(np.asarray(b))):
            return g(a, b)
        return np.vectorize(lambda x, y: Num(f(Num.of(x), Num.of(y))), otypes=[object])(a, b)

    def maximum(self, a, b):
        return self._el(T.tmax, np.maximum, a, b)

    def minimum(self, a, b):
        return self._el(T.tmin, np.minimum, a, b)


def install(ch):
    import decomon.wrapper as W

    modular.patch_attr(W, "np", NPS(ch))
    return W


def numbers(nm, shape):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = Num(T.app(nm, *[T.iconst(k) for k in i]))
    return a


inside = lambda x, lo, hi: T.land(*[T.land(T.ge(Num.of(h), Num.of(v)), T.ge(Num.of(v), Num.of(l))) for v, l, h in zip(x, lo, hi)])


def apart(sub):
    """no two sub-boxes share interior points"""
    o = []
    for a, b in itertools.combinations(sub, 2):
        o.append(T.lor(*[T.lor(T.ge(Num.of(lb), Num.of(ha)), T.ge(Num.of(la), Num.of(hb))) for la, ha, lb, hb in zip(a[0], a[1], b[0], b[1])]))
    return T.land(*o)


def scene(B, shape):
    lo, hi, x = numbers("xmin", (B,) + shape), numbers("xmax", (B,) + shape), numbers("x", (B,) + shape)
    fl = lambda a, b: a[b].reshape(-1)
    box = lambda b: [T.ge(Num.of(h), Num.of(l)) for l, h in zip(fl(lo, b), fl(hi, b))]
    point = lambda b: [inside(fl(x, b), fl(lo, b), fl(hi, b))]
    return lo, hi, x, fl, box, point


def run_boxes(B, shape, n):
    def r(ctx):
        ch = Choices()
        paths = 0
        agg = Aggregate(ctx)
        while True:
            paths += 1
            W = install(ch)
            lo, hi, x, fl, box, point = scene(B, shape)
            keep = (lo.copy(), hi.copy())
            X, Y = W.refine_boxes(lo, hi, n)
            k = 2 ** int(math.log2(n)) if n > 1 else 1
            agg.fact("number and shape of the sub-boxes", X.shape == (B, k) + shape and Y.shape == X.shape, f"{X.shape} {Y.shape}, expected {(B, k) + shape}")
            agg.fact("the arrays of the user are left as they were", all((a == b).all() for a, b in zip(keep, (lo, hi))), "changed")
            if X.shape == (B, k) + shape and Y.shape == X.shape:
                for b in range(B):
                    sub = [(fl(X[b], q), fl(Y[b], q)) for q in range(k)]
                    agg.prove("ordered, inside the box", T.land(*[T.land(*[T.land(T.ge(Num.of(h), Num.of(l)), T.ge(Num.of(H), Num.of(h)), T.ge(Num.of(l), Num.of(L))) for l, h, L, H in zip(*s, fl(lo, b), fl(hi, b))]) for s in sub]), box(b))
                    agg.prove("every point of the box is in a sub-box", T.lor(*[inside(fl(x, b), *s) for s in sub]), point(b))
                    if k > 1:
                        agg.prove("sub-boxes do not overlap", apart(sub), box(b))
            if not ch.next():
                break
        agg.done(paths)

    return r


class Aggregate:
    """one obligation for each statement, for all the sequences of choices"""

    def __init__(self, ctx):
        self.ctx, self.seen, self.bad = ctx, {}, {}
        from engine.prover import Prover

        self.P = Prover

    def fact(self, nm, ok, detail):
        self.seen[nm] = self.seen.get(nm, 0) + 1
        if not ok and nm not in self.bad:
            self.bad[nm] = self.ctx.fact(nm, False, detail)

    def prove(self, nm, goal, extra):
        k = (nm, goal)
        if k in self.seen:
            return
        self.seen[k] = 1
        self.seen[nm] = self.seen.get(nm, 0) + 1
        if nm in self.bad:
            return
        n = len(self.ctx.results)
        ok = self.ctx.prove(nm, goal, extra=extra)
        if not ok:
            self.bad[nm] = True
        elif self.seen[nm] > 1:
            # one line for each statement and sequence of choices
            self.ctx.results[-1]["ob"] = f"{nm} #{self.seen[nm]}"

    def done(self, paths):
        for nm, c in self.seen.items():
            if isinstance(nm, str) and nm not in self.bad and not any(r["ob"].startswith(nm) for r in self.ctx.results):
                self.ctx.fact(f"{nm} ({paths} sequences of choices)", True)


def run_box(fn, B, shape, n_split, random, labels=None):
    def r(ctx):
        import decomon.core as C
        from decomon.models.models import DecomonModel

        ch = Choices()
        paths = 0
        agg = Aggregate(ctx)
        n = int(np.prod(shape))
        no = 2 if fn in ("get_upper_box", "get_lower_box") else None
        while True:
            paths += 1
            W = install(ch)
            lo, hi, x, fl, box, point = scene(B, shape)
            calls = []

            class Model(DecomonModel):
                input_shape = (None, 2, n)

                def __init__(self):
                    pass

            m = object.__new__(Model)
            object.__setattr__(m, "perturbation_domain", C.BoxDomain())

            def f(model, x_min, x_max, batch_size=-1, **kw):
                calls.append((model, x_min, x_max, batch_size, kw))
                return numbers("score", (len(x_min), no) if no else (len(x_min),))

            f.__name__ = fn
            modular.patch("decomon.wrapper", fn, f)
            kw = {}
            if labels:
                kw["source_labels"] = np.array(labels["source"]) if isinstance(labels["source"], list) else labels["source"]
                if "target" in labels:
                    kw["target_labels"] = np.array(labels["target"]) if isinstance(labels["target"], list) else labels["target"]
            res = W.refine_box(f, m, lo, hi, n_split, batch_size=7, random=random, **kw)
            want = (B, no) if no else (B,)
            agg.fact("one score per sample (and output)", np.shape(res) == want, f"{np.shape(res)} expected {want}")
            agg.fact("one call with the converted model and the batch size", len(calls) == 1 and calls[0][0] is m and calls[0][3] == 7, f"{len(calls)}")
            _, X, Y, _, got = calls[0]
            agg.fact("boxes given", X.shape == (B * n_split, n) == Y.shape, f"{X.shape}")
            for nm in ("source", "target"):
                g = got.get(f"{nm}_labels")
                if labels and nm in labels:
                    e = labels[nm]
                    e = np.repeat(np.array(e).reshape((B, -1)) if isinstance(e, list) else np.full((B, 1), e), n_split, axis=0)
                    agg.fact(f"{nm} labels of each sub-box: those of its sample", isinstance(g, np.ndarray) and g.reshape((len(g), -1)).shape == e.shape and (g.reshape(e.shape) == e).all(), f"{g}")
                else:
                    agg.fact(f"{nm} labels: none", g is None, f"{g}")
            if np.shape(res) == want and X.shape == (B * n_split, n) == Y.shape:
                for b in range(B):
                    rows = range(b * n_split, (b + 1) * n_split)
                    if n_split > 1:
                        agg.prove("sub-boxes do not overlap", apart([(X[q], Y[q]) for q in rows]), box(b))
                    for o in range(no or 1):
                        s = lambda q: T.app("score", *[T.iconst(k) for k in ((q, o) if no else (q,))])
                        v = Num.of(res[(b, o) if no else b])
                        y = T.app("y", T.iconst(b), T.iconst(o))
                        if fn == "check_adv_box":
                            # y: largest margin over the box, above the score of each box inside it
                            ins = lambda q: T.land(*[T.land(T.ge(Num.of(h), Num.of(l)), T.ge(Num.of(H), Num.of(h)), T.ge(Num.of(l), Num.of(L))) for l, h, L, H in zip(X[q], Y[q], fl(lo, b), fl(hi, b))])
                            agg.prove("sub-boxes inside the box", T.land(*[ins(q) for q in rows]), box(b))
                            agg.prove("score: below the largest margin", T.ge(y, v), [T.ge(y, s(q)) for q in rows])
                        else:
                            # y: value at the point, enclosed by the score of each box that contains it
                            sg = (lambda a, c: T.ge(c, a)) if fn == "get_lower_box" else T.ge
                            agg.prove("every point of the box is in a sub-box", T.lor(*[inside(fl(x, b), X[q], Y[q]) for q in rows]), point(b))
                            for q in rows:
                                agg.prove("score: bound of each sub-box", sg(v, s(q)), [])
            if not ch.next():
                break
        agg.done(paths)

    return r


def cases():
    out = []
    F = ["decomon.wrapper.refine_boxes"]
    for B, shape, ns in ((1, (1,), (1, 2, 3, 4, 8, 15, 16)), (1, (2,), (1, 2, 3, 4, 7, 8)), (2, (2,), (2, 3, 4)), (1, (3,), (2, 4, 5)), (1, (2, 2), (1, 2, 3, 4)), (2, (1, 2), (2, 4)), (2, (3,), (2,)), (1, (1, 2, 2), (2,))):
        for n in ns:
            out.append(case(f"refine_boxes {B} x {shape} {n} sub-boxes", run_boxes(B, shape, n), F))
    F = ["decomon.wrapper.refine_box"]
    L = {"get_upper_box": [None], "get_lower_box": [None],
         "get_adv_box": [{"source": 1}, {"source": [2, 0]}, {"source": [[0, 1, 0], [1, 0, 1]], "target": [[1, 0, 1], [0, 1, 0]]}, {"source": 1, "target": [2, 0]}],
         "check_adv_box": [{"source": 1}, {"source": [2, 0], "target": 1}]}
    for fn, labs in L.items():
        for lab in labs:
            for random in (True, False):
                for B, shape, ns in ((2, (1,), (1, 2, 3)), (2, (2,), (2,)), (2, (1, 2), (2, 3) if fn == "get_upper_box" else (2,))) + (((1, (2,), (3, 4)), (1, (3,), (3,))) if lab is None else ()):
                    for n in ns:
                        out.append(case(f"refine_box {fn} labels {lab} {'random' if random else 'largest'} {B} x {shape} {n} sub-boxes", run_box(fn, B, shape, n, random, lab), F))
    return out
