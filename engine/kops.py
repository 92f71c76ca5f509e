"""Assumed contracts of the keras.ops functions used by the code under verification.

Each function gives the element-wise meaning (over the mathematical reals) of the
keras operation.  They are cross-checked against the real keras by selfcheck.py.
"""
import builtins as _b
import numbers

import numpy as _np

from . import terms as T
from .tensor import (
    Tensor,
    Unsupported,
    ShapeError,
    Atom,
    as_tensor,
    atom_indices,
    broadcast,
    cmp,
    con,
    deltas,
    dim_of_int,
    dsize,
    ew,
    from_numpy,
    getitem,
    index_value,
    ravel,
    sum_atom,
    uniform,
    unify,
    unravel,
)

USED = set()


def _axis(a, n):
    if a < 0:
        a += n
    if not 0 <= a < n:
        raise ShapeError("axis out of range")
    return a


# ------------------------------------------------------------- element-wise
def cast(x, dtype=None):
    x = as_tensor(x)
    if x.kind in ("bool", "index"):
        return Tensor(x.dims, x.real, dtype=dtype)
    if dtype is not None and str(dtype).startswith("int"):
        raise Unsupported("cast to int")
    if dtype is not None and str(dtype) == "bool":
        return Tensor(x.dims, lambda i: T.lnot(T.eq(x.at(i), T.ZERO)), kind="bool")
    return Tensor(x.dims, x.at, dtype=dtype or x.dtype)


def convert_to_tensor(x, dtype=None, **kw):
    t = as_tensor(x)
    if t.kind == "real" and dtype is not None:
        return Tensor(t.dims, t.at, dtype=dtype)
    return t


def convert_to_numpy(x):
    return as_tensor(x)


def maximum(a, b):
    return ew(T.tmax, a, b)


def minimum(a, b):
    return ew(T.tmin, a, b)


def add(a, b):
    return as_tensor(a) + b


def subtract(a, b):
    return as_tensor(a) - b


def multiply(a, b):
    return as_tensor(a) * b


def divide(a, b):
    return as_tensor(a) / b


true_divide = divide


def negative(a):
    return -as_tensor(a)


def abs(a):
    return ew(T.tabs, a)


absolute = abs


def sign(a):
    return ew(T.sign, a)


def square(a):
    return ew(lambda t: T.mul(t, t), a)


def clip(x, a, b):
    return ew(lambda t, lo, hi: T.tmin(T.tmax(t, lo), hi), x, a, b)


def relu(x):
    return ew(lambda t: T.tmax(t, T.ZERO), x)


def leaky_relu(x, negative_slope=0.2):
    return ew(lambda t: T.add(T.tmax(t, T.ZERO), T.mul(T.const(negative_slope), T.tmin(t, T.ZERO))), x)


def _fn(name):
    def g(x):
        return ew(lambda t: T.fn(name, t), x)

    g.__name__ = name
    return g


exp = _fn("exp")
log = _fn("log")
sqrt = _fn("sqrt")
sigmoid = _fn("sigmoid")
tanh = _fn("tanh")
softplus = _fn("softplus")
softsign = _fn("softsign")
elu = _fn("elu")
selu = _fn("selu")
silu = _fn("silu")
gelu = _fn("gelu")
hard_sigmoid = _fn("hard_sigmoid")
log_sigmoid = _fn("log_sigmoid")


def power(x, p):
    p = as_tensor(p)
    if p.dims:
        raise Unsupported("power with tensor exponent")
    e = p.real(())
    if e.op != "c":
        raise Unsupported("power with symbolic exponent")
    e = e.args[0]
    if e.denominator == 1 and 0 <= e <= 4:
        return ew(lambda t: T.mul(*([t] * int(e))) if e else T.ONE, x)
    if e == -1:
        return ew(T.recip, x)
    if e * 2 == 1:
        return sqrt(x)
    raise Unsupported(f"power {e}")


def where(c, a=None, b=None):
    c, a, b = as_tensor(c), as_tensor(a), as_tensor(b)
    if c.kind != "bool":
        c = Tensor(c.dims, lambda i, c=c: T.lnot(T.eq(c.real(i), T.ZERO)), kind="bool")
    return ew(_choice, _AsCond(c), a, b)


def _choice(k, x, y):
    """where(x > y, x, y) is the larger one, where(x < y, x, y) the smaller one"""
    if k in (T.ge(x, y), T.gt(x, y)):
        return T.tmax(x, y)
    if k in (T.ge(y, x), T.gt(y, x)):
        return T.tmin(x, y)
    return T.ite(k, x, y)


class _AsCond(Tensor):
    def __init__(self, c):
        super().__init__(c.dims, c.at, kind="bool")

    def real(self, idx):
        return self.at(idx)


def greater_equal(a, b):
    return cmp(T.ge, a, b)


def less_equal(a, b):
    return cmp(T.ge, b, a)


def greater(a, b):
    return cmp(T.gt, a, b)


def less(a, b):
    return cmp(T.gt, b, a)


def equal(a, b):
    return cmp(T.eq, a, b)


def not_equal(a, b):
    return cmp(lambda x, y: T.lnot(T.eq(x, y)), a, b)


def _cond(t):
    t = as_tensor(t)
    if t.kind == "bool":
        return t
    return Tensor(t.dims, lambda i: T.lnot(T.eq(t.real(i), T.ZERO)), kind="bool")


def logical_and(a, b):
    return ew(T.land, _cond(a), _cond(b), kind="bool", get="at")


def logical_or(a, b):
    return ew(T.lor, _cond(a), _cond(b), kind="bool", get="at")


def logical_not(a):
    return ew(T.lnot, _cond(a), kind="bool", get="at")


def stop_gradient(x):
    return as_tensor(x)


# ------------------------------------------------------------- shapes
def shape(x):
    return as_tensor(x).shape


def ndim(x):
    return as_tensor(x).ndim


def size(x):
    return int(_np.prod([int(s) for s in as_tensor(x).shape], dtype=object))


def expand_dims(x, axis):
    x = as_tensor(x)
    n = len(x.dims) + 1
    a = axis if axis >= 0 else axis + n
    dims = x.dims[:a] + ((),) + x.dims[a:]
    if x.const is not None:
        return uniform(dims, x.const, kind=x.kind, dtype=x.dtype)
    return Tensor(dims, lambda idx: x.at(idx[:a] + idx[a + 1 :]), kind=x.kind, dtype=x.dtype)


def squeeze(x, axis=None):
    x = as_tensor(x)
    if axis is None:
        axs = [i for i, d in enumerate(x.dims) if d == ()]
    else:
        axs = [_axis(a, len(x.dims)) for a in (axis if isinstance(axis, (tuple, list)) else [axis])]
        for a in axs:
            if x.dims[a] != ():
                raise ShapeError("cannot squeeze a dimension that is not 1")
    keep = [i for i in range(len(x.dims)) if i not in axs]
    dims = tuple(x.dims[i] for i in keep)

    def fn(idx):
        full = [()] * len(x.dims)
        for i, v in zip(keep, idx):
            full[i] = v
        return x.at(tuple(full))

    return Tensor(dims, fn, kind=x.kind, dtype=x.dtype)


def reshape(x, newshape):
    x = as_tensor(x)
    try:
        return _regroup(x, newshape)
    except Unsupported:
        if x.const is not None:
            ns = [-1 if k is None else int(k) for k in ((newshape,) if isinstance(newshape, numbers.Integral) else newshape)]
            tot, k = 1, 1
            for d in x.dims:
                tot *= dsize(d)
            for e in ns:
                k *= 1 if e == -1 else e
            ns = [tot // k if e == -1 else e for e in ns]
            return uniform([dim_of_int(e) for e in ns], x.const, kind=x.kind, dtype=x.dtype)
        # a concrete tail is enumerated row-major
        k = len(x.dims)
        while k > 0 and _b.all(a.kind == "con" for a in x.dims[k - 1]):
            k -= 1
        tail = tuple(a for d in x.dims[k:] for a in d)
        if len(tail) < 2:
            raise
        cut = [len(d) for d in x.dims[k:]]

        def fn(idx):
            v = unravel(idx[-1][0], tail)
            out, j = [], 0
            for c in cut:
                out.append(tuple(v[j : j + c]))
                j += c
            return x.at(tuple(idx[:-1]) + tuple(out))

        y = Tensor(x.dims[:k] + ((con(dsize(tail)),),), fn, kind=x.kind, dtype=x.dtype)
        return _regroup(y, newshape)


def _regroup(x, newshape):
    if isinstance(newshape, numbers.Integral):
        newshape = (newshape,)
    ns = [(-1 if s is None else int(s)) for s in newshape]
    total = 1
    for d in x.dims:
        total *= dsize(d)
    if ns.count(-1) > 1:
        raise ShapeError("reshape with several -1")
    if -1 in ns:
        k = 1
        for s in ns:
            if s != -1:
                k *= s
        if k == 0 or total % k:
            raise ShapeError(f"cannot reshape {x.shape} into {tuple(newshape)}")
        ns[ns.index(-1)] = total // k
    else:
        k = 1
        for s in ns:
            k *= s
        if k != total:
            raise ShapeError(f"cannot reshape {x.shape} into {tuple(newshape)}")
    # source atoms with position
    src = [(ax, j, a) for ax, d in enumerate(x.dims) for j, a in enumerate(d)]
    # build target dims out of the source atoms; split concrete and composite atoms when needed
    q = list(src)
    pieces = []  # per source atom: list of sub atoms in order (or itself)
    subs = {(ax, j): [] for ax, j, _ in src}
    tdims = []
    cur = None  # (ax,j, remaining size, kind)

    def nxt():
        nonlocal cur
        if cur is None:
            if not q:
                return None
            ax, j, a = q.pop(0)
            cur = [ax, j, a, a.size]
        return cur

    for s in ns:
        d = []
        need = s
        while need > 1:
            c = nxt()
            if c is None:
                raise ShapeError("reshape")
            ax, j, a, rem = c
            if need % rem == 0:
                if rem == a.size:
                    d.append(((ax, j, len(subs[(ax, j)])), a))
                    subs[(ax, j)].append(a)
                else:
                    sa = _split_atom(a, rem)
                    d.append(((ax, j, len(subs[(ax, j)])), sa))
                    subs[(ax, j)].append(sa)
                need //= rem
                cur = None
            elif rem % need == 0 and a.kind in ("con", "comp"):
                sa = _split_atom(a, need)
                for e in sa if isinstance(sa, tuple) else (sa,):
                    d.append(((ax, j, len(subs[(ax, j)])), e))
                    subs[(ax, j)].append(e)
                c[3] = rem // need
                need = 1
            else:
                raise Unsupported(f"reshape {x.dims} -> {ns}: not a regrouping of the dimensions")
        tdims.append(d)
    out_dims = []
    where_ = []
    for d in tdims:
        out_dims.append(tuple(e for _, e in d))
        where_.append([k for k, _ in d])

    def fn(idx):
        vals = {}
        for ks, t in zip(where_, idx):
            for k, v in zip(ks, t):
                vals[k] = v
        full = []
        for ax, d in enumerate(x.dims):
            tt = []
            for j, a in enumerate(d):
                sl = subs[(ax, j)]
                vv = [vals[(ax, j, m)] for m in range(len(sl))]
                if len(sl) == 1 and sl[0] is a:
                    tt.append(vv[0])
                elif a.kind == "con":
                    tt.append(ravel(vv, sl))
                else:
                    tt.append(T.ipack(vv))
            full.append(tuple(tt))
        return x.at(tuple(full))

    # merge adjacent concrete atoms is not needed
    if x.const is not None:
        return uniform(tuple(out_dims), x.const, kind=x.kind, dtype=x.dtype)
    return Tensor(tuple(out_dims), fn, kind=x.kind, dtype=x.dtype)


def _split_atom(a, n):
    d = dim_of_int(n)
    if len(d) != 1:
        raise Unsupported("split atom")
    return d[0]


def ravel_(x):
    return reshape(x, (-1,))


def transpose(x, axes=None):
    x = as_tensor(x)
    n = len(x.dims)
    if axes is None:
        axes = tuple(reversed(range(n)))
    axes = [_axis(int(a), n) for a in axes]
    if sorted(axes) != list(range(n)):
        raise ShapeError(f"transpose axes {axes} for rank {n}")

    if x.const is not None:
        return uniform([x.dims[a] for a in axes], x.const, kind=x.kind, dtype=x.dtype)

    def fn(idx):
        full = [None] * n
        for o, a in enumerate(axes):
            full[a] = idx[o]
        return x.at(tuple(full))

    return Tensor(tuple(x.dims[a] for a in axes), fn, kind=x.kind, dtype=x.dtype)


def moveaxis(x, s, d):
    n = as_tensor(x).ndim
    s, d = _axis(s, n), _axis(d, n)
    order = [i for i in range(n) if i != s]
    order.insert(d, s)
    return transpose(x, order)


def swapaxes(x, a, b):
    n = as_tensor(x).ndim
    order = list(range(n))
    a, b = _axis(a, n), _axis(b, n)
    order[a], order[b] = order[b], order[a]
    return transpose(x, order)


def repeat(x, repeats, axis=None):
    x = as_tensor(x)
    if axis is None:
        x = reshape(x, (-1,))
        axis = 0
    a = _axis(axis, len(x.dims))
    if not isinstance(repeats, numbers.Integral):
        raise Unsupported("repeat with tensor repeats")
    r = dim_of_int(repeats)
    k = len(x.dims[a])
    dims = x.dims[:a] + (x.dims[a] + r,) + x.dims[a + 1 :]
    out = Tensor(dims, lambda idx: x.at(idx[:a] + (idx[a][:k],) + idx[a + 1 :]), kind=x.kind, dtype=x.dtype)
    return _merge_con(out, a)


def _merge_con(x, a):
    """an axis made of several concrete atoms becomes one concrete atom"""
    d = x.dims[a]
    if len(d) > 1 and _b.all(e.kind == "con" for e in d):
        nd = (con(dsize(d)),)
        dims = x.dims[:a] + (nd,) + x.dims[a + 1 :]
        return Tensor(
            dims, lambda idx: x.at(idx[:a] + (unravel(idx[a][0], d),) + idx[a + 1 :]), kind=x.kind, dtype=x.dtype
        )
    return x


def tile(x, reps):
    x = as_tensor(x)
    if isinstance(reps, numbers.Integral):
        reps = (reps,)
    reps = list(reps)
    while len(reps) < x.ndim:
        reps.insert(0, 1)
    while x.ndim < len(reps):
        x = expand_dims(x, 0)
    for a, r in enumerate(reps):
        if int(r) == 1:
            continue
        rd = dim_of_int(r)
        k = len(rd)
        dims = x.dims[:a] + (rd + x.dims[a],) + x.dims[a + 1 :]
        x = Tensor(dims, lambda idx, x=x, a=a, k=k: x.at(idx[:a] + (idx[a][k:],) + idx[a + 1 :]), kind=x.kind)
        x = _merge_con(x, a)
    return x


def broadcast_to(x, shp):
    x = as_tensor(x)
    dims = tuple(dim_of_int(s) for s in shp)
    z = Tensor(dims, lambda idx: T.ZERO)
    return x + z


def ones_like(x, dtype=None):
    x = as_tensor(x)
    return uniform(x.dims, T.ONE, dtype=dtype or x.dtype)


def zeros_like(x, dtype=None):
    x = as_tensor(x)
    return uniform(x.dims, T.ZERO, dtype=dtype or x.dtype)


def full(shp, v, dtype="float32"):
    if isinstance(shp, numbers.Integral):
        shp = (shp,)
    v = as_tensor(v)
    dims = tuple(dim_of_int(s) for s in shp)
    return uniform(dims, v.real(()), dtype=dtype or "float32")


def full_like(x, v, dtype=None):
    x = as_tensor(x)
    v = as_tensor(v)
    return uniform(x.dims, v.real(()))


def zeros(shp, dtype="float32"):
    return full(shp, 0.0, dtype)


def ones(shp, dtype="float32"):
    return full(shp, 1.0, dtype)


def identity(n, dtype="float32"):
    d = dim_of_int(n)
    return Tensor((d, d), lambda idx: deltas(idx[0], idx[1]), dtype=dtype or "float32")


def eye(n, m=None, k=0, dtype="float32"):
    if m not in (None, n) or k:
        raise Unsupported("eye")
    return identity(n, dtype)


def diag(x, k=0):
    x = as_tensor(x)
    if k:
        raise Unsupported("diag k")
    if x.ndim == 1:
        d = x.dims[0]
        return Tensor((d, d), lambda idx: T.mul(deltas(idx[0], idx[1]), x.real((idx[0],))), dtype=x.dtype)
    if x.ndim == 2:
        d, m1, m2 = unify(x.dims[0], x.dims[1])
        return Tensor((d,), lambda idx: x.real((m1(idx[0]), m2(idx[0]))), dtype=x.dtype)
    raise Unsupported("diag")


diagonal = diag


def arange(*a, dtype=None):
    return from_numpy(_np.arange(*a))


def linspace(*a, **k):
    return from_numpy(_np.linspace(*a))


def one_hot(x, num_classes, axis=-1, dtype=None, **kw):
    x = as_tensor(x)
    d = dim_of_int(num_classes)
    if x.kind == "index":

        def fn(idx):
            return T.delta(x.at(idx[:-1]), idx[-1][0] if d else T.iconst(0))

    else:

        def fn(idx):
            return T.ind(T.eq(x.real(idx[:-1]), index_value(idx[-1][0] if d else T.iconst(0))))

    out = Tensor(x.dims + (d,), fn)
    a = axis if axis >= 0 else axis + out.ndim
    if a != out.ndim - 1:
        out = moveaxis(out, out.ndim - 1, a)
    return out


# ------------------------------------------------------------- join / split
def concatenate(xs, axis=0):
    xs = [as_tensor(x) for x in xs]
    if len(xs) == 1:
        return xs[0]
    n = _b.max(x.ndim for x in xs)
    if _b.any(x.ndim != n for x in xs):
        raise ShapeError("concatenate: ranks differ")
    a = _axis(axis, n)
    dims = []
    maps = [[None] * n for _ in xs]
    for ax in range(n):
        if ax == a:
            dims.append(None)
            continue
        c = xs[0].dims[ax]
        for x in xs[1:]:
            c, _, _ = unify(c, x.dims[ax])
        dims.append(c)
        for k, x in enumerate(xs):
            maps[k][ax] = unify(c, x.dims[ax])[2]
    parts = [x.dims[a] for x in xs]
    kind = xs[0].kind
    get = (lambda x, i: x.at(i)) if _b.all(x.kind == kind for x in xs) else (lambda x, i: x.real(i))
    if not _b.all(x.kind == kind for x in xs):
        kind = "real"
    # empty parts
    if _b.all(_b.all(e.kind == "con" for e in p) for p in parts):
        sizes = [dsize(p) for p in parts]
        tot = _b.sum(sizes)
        dims[a] = (con(tot),)

        def fn(idx):
            i = idx[a][0]
            if i.op != "ic":
                raise Unsupported("symbolic index into a concrete dimension")
            k = i.args[0]
            for j, s in enumerate(sizes):
                if k < s:
                    sub = unravel(T.iconst(k), parts[j])
                    return get(xs[j], tuple(sub if q == a else maps[j][q](idx[q]) for q in range(n)))
                k -= s
            raise Unsupported("index out of range")

        return Tensor(dims, fn, kind=kind, dtype=xs[0].dtype)
    # flatten nested disjoint sums
    fparts = []
    own = []
    for j, p in enumerate(parts):
        if len(p) == 1 and p[0].kind == "sum":
            for t, q in enumerate(p[0].parts):
                fparts.append(q)
                own.append((j, t))
        else:
            fparts.append(p)
            own.append((j, None))
    sa = sum_atom(fparts)
    dims[a] = (sa,)

    def fn(idx):
        i = idx[a][0]
        if i.op != "inj":
            raise Unsupported("symbolic index into a sum dimension")
        j, t = own[i.args[0]]
        sub = tuple(i.args[1:]) if t is None else (T.iinj(t, *i.args[1:]),)
        return get(xs[j], tuple(sub if q == a else maps[j][q](idx[q]) for q in range(n)))

    return Tensor(dims, fn, kind=kind, dtype=xs[0].dtype)


def stack(xs, axis=0):
    xs = [as_tensor(x) for x in xs]
    a = axis if axis >= 0 else axis + xs[0].ndim + 1
    return concatenate([expand_dims(x, a) for x in xs], a)


def hstack(xs):
    return concatenate(xs, 0 if as_tensor(xs[0]).ndim == 1 else 1)


def vstack(xs):
    return concatenate([x if as_tensor(x).ndim > 1 else expand_dims(x, 0) for x in xs], 0)


def split(x, indices_or_sections, axis=0):
    x = as_tensor(x)
    a = _axis(axis, x.ndim)
    n = x.shape[a]
    if isinstance(indices_or_sections, numbers.Integral):
        m = int(indices_or_sections)
        if n % m:
            raise ShapeError("split does not divide evenly")
        if m > 100:
            raise Unsupported("split of a symbolic dimension into a list")
        s = n // m
        cuts = [(i * s, (i + 1) * s) for i in range(m)]
    else:
        b = [0] + [int(i) for i in indices_or_sections] + [n]
        cuts = list(zip(b[:-1], b[1:]))
    out = []
    for lo, hi in cuts:
        it = [_b.slice(None)] * x.ndim
        it[a] = _b.slice(lo, hi)
        out.append(getitem(x, tuple(it)))
    return out


def unstack(x, num=None, axis=0):
    x = as_tensor(x)
    return [take_at(x, i, axis) for i in range(x.shape[axis])]


def take_at(x, i, axis):
    it = [_b.slice(None)] * x.ndim
    it[axis] = i
    return getitem(x, tuple(it))


def take(x, indices, axis=None):
    x = as_tensor(x)
    if axis is None:
        x = ravel_(x)
        axis = 0
    if isinstance(indices, numbers.Integral):
        return take_at(x, int(indices), _axis(axis, x.ndim))
    ks = [int(k) for k in _np.asarray(indices).ravel()]
    return stack([take_at(x, k, _axis(axis, x.ndim)) for k in ks], axis)


def flip(x, axis=None):
    x = as_tensor(x)
    it = [_b.slice(None)] * x.ndim
    for a in range(x.ndim) if axis is None else [axis] if isinstance(axis, int) else axis:
        it[a] = _b.slice(None, None, -1)
    return getitem(x, tuple(it))


def pad(x, pw, *a, **k):
    raise Unsupported("pad")


# ------------------------------------------------------------- reductions
def _sum_atoms(d, f):
    """sum over all indices of dim d of f(idx tuple)"""
    if not d:
        return f(())
    a = d[0]
    if a.kind in ("con", "sum"):
        ts = []
        if a.kind == "con":
            for i in atom_indices(a):
                ts.append(_sum_atoms(d[1:], lambda r, i=i: f((i,) + r)))
        else:
            for tag, p in enumerate(a.parts):
                ts.append(
                    _sum_atoms(p, lambda s, tag=tag: _sum_atoms(d[1:], lambda r: f((T.iinj(tag, *s),) + r)))
                )
        return T.add(*ts)
    v = T.ivar(a, a.name)
    return T.tsum(v, _sum_atoms(d[1:], lambda r: f((v,) + r)))


def _ext_atoms(d, f, op, binder):
    if not d:
        return f(())
    a = d[0]
    if a.kind in ("con", "sum"):
        ts = []
        if a.kind == "con":
            for i in atom_indices(a):
                ts.append(_ext_atoms(d[1:], lambda r, i=i: f((i,) + r), op, binder))
        else:
            for tag, p in enumerate(a.parts):
                ts.append(
                    _ext_atoms(
                        p, lambda s, tag=tag: _ext_atoms(d[1:], lambda r: f((T.iinj(tag, *s),) + r), op, binder), op, binder
                    )
                )
        r = ts[0]
        for t in ts[1:]:
            r = op(r, t)
        return r
    v = T.ivar(a, a.name)
    return binder(v, _ext_atoms(d[1:], lambda r: f((v,) + r), op, binder))


def _axes(axis, n):
    if axis is None:
        return list(range(n))
    if isinstance(axis, numbers.Integral):
        return [_axis(int(axis), n)]
    return [_axis(int(a), n) for a in axis]


def _reduce(x, axis, keepdims, red, kind="real"):
    x = as_tensor(x)
    n = x.ndim
    axs = sorted(set(_axes(axis, n)))
    keep = [i for i in range(n) if i not in axs]
    dims = tuple((() if i in axs else x.dims[i]) for i in range(n)) if keepdims else tuple(x.dims[i] for i in keep)

    def fn(idx):
        base = [None] * n
        if keepdims:
            for i in keep:
                base[i] = idx[i]
        else:
            for i, v in zip(keep, idx):
                base[i] = v

        def body(k, cur):
            if k == len(axs):
                return x.real(tuple(cur))
            ax = axs[k]
            return red(x.dims[ax], lambda t: body(k + 1, cur[:ax] + [t] + cur[ax + 1 :]))

        return body(0, base)

    return Tensor(dims, fn, kind=kind, dtype=x.dtype)


def sum(x, axis=None, keepdims=False):
    return _reduce(x, axis, keepdims, _sum_atoms)


def max(x, axis=None, keepdims=False, initial=None):
    return _reduce(x, axis, keepdims, lambda d, f: _ext_atoms(d, f, T.tmax, T.maxo))


def min(x, axis=None, keepdims=False, initial=None):
    return _reduce(x, axis, keepdims, lambda d, f: _ext_atoms(d, f, T.tmin, T.mino))


amax = max
amin = min


def mean(x, axis=None, keepdims=False):
    x = as_tensor(x)
    s = sum(x, axis, keepdims)
    k = T.ONE
    for a in _axes(axis, x.ndim):
        for at in x.dims[a]:
            k = T.mul(k, T.card(at))
    return s * scalar_(T.recip(k))


def scalar_(t):
    return Tensor((), lambda idx: t)


def prod(x, axis=None, keepdims=False):
    def red(d, f):
        if _b.any(a.kind != "con" for a in d):
            raise Unsupported("prod over symbolic dim")
        return T.mul(*[f(unravel(T.iconst(k), d)) for k in range(dsize(d))])

    return _reduce(x, axis, keepdims, red)


def all(x, axis=None, keepdims=False):
    raise Unsupported("all")


any_ = all


def _argext(kind, x, axis):
    x = as_tensor(x)
    if axis is None:
        raise Unsupported("arg extremum without axis")
    a = _axis(axis, x.ndim)
    d = x.dims[a]
    if len(d) != 1:
        raise Unsupported("arg extremum over a composite axis")
    dims = x.dims[:a] + x.dims[a + 1 :]
    if d[0].kind == "con":
        n = d[0].concrete

        def fn(idx):
            vals = [x.real(idx[:a] + ((T.iconst(k),),) + idx[a:]) for k in range(n)]
            if n > 8:
                return T.mk("iargc", kind, *vals)
            # first index attaining: nested choice encoded as an indexed real
            return T.mk("iargc", kind, *vals)

        return Tensor(dims, fn, kind="index")

    def fn(idx):
        v = T.ivar(d[0], d[0].name)
        return T.iarg(kind, v, x.real(idx[:a] + ((v,),) + idx[a:]))

    return Tensor(dims, fn, kind="index")


def argmax(x, axis=None):
    return _argext("argmax", x, axis)


def argmin(x, axis=None):
    return _argext("argmin", x, axis)


def cumsum(x, axis=None):
    x = as_tensor(x)
    a = _axis(axis, x.ndim)
    d = x.dims[a]
    if d != () and (len(d) != 1 or d[0].kind != "con"):
        raise Unsupported("cumsum over a symbolic dim")

    def fn(idx):
        if d == ():
            return x.real(idx)
        k = idx[a][0].args[0]
        return T.add(*[x.real(idx[:a] + ((T.iconst(j),),) + idx[a + 1 :]) for j in range(k + 1)])

    return Tensor(x.dims, fn)


def sort(x, axis=-1):
    x = as_tensor(x)
    a = _axis(axis, x.ndim)
    d = x.dims[a]
    if d == ():
        return x
    if len(d) != 1 or d[0].kind != "con":
        raise Unsupported("sort over a symbolic dim")
    n = d[0].concrete

    def fn(idx):
        k = idx[a][0].args[0]
        vals = [x.real(idx[:a] + ((T.iconst(j),),) + idx[a + 1 :]) for j in range(n)]
        # bubble network
        for i in range(n):
            for j in range(n - 1 - i):
                vals[j], vals[j + 1] = T.tmin(vals[j], vals[j + 1]), T.tmax(vals[j], vals[j + 1])
        return vals[k]

    return Tensor(x.dims, fn)


def softmax(x, axis=-1):
    x = as_tensor(x)
    e = exp(x)
    return e / sum(e, axis, True)


def logsumexp(x, axis=None, keepdims=False):
    return log(sum(exp(x), axis, keepdims))


def reciprocal(x):
    return 1 / as_tensor(x)


def rsqrt(x):
    return 1 / sqrt(x)


def relu6(x):
    return minimum(relu(x), 6.0)


def outer(x1, x2):
    a, b = ravel_(as_tensor(x1)), ravel_(as_tensor(x2))
    return expand_dims(a, -1) * expand_dims(b, 0)


def average(x, axis=None, weights=None):
    if weights is None:
        return mean(x, axis)
    x, w = as_tensor(x), as_tensor(weights)
    if w.ndim == 1 and x.ndim > 1:
        w = reshape(w, [w.shape[0] if k == axis % x.ndim else 1 for k in _b.range(x.ndim)])
    return sum(x * w, axis) / sum(broadcast_to(w, x.shape), axis)


def norm(x, ord=None, axis=None, keepdims=False):
    x = as_tensor(x)
    n = x.ndim if axis is None else len(axis) if isinstance(axis, (tuple, list)) else 1
    if isinstance(axis, (tuple, list)) and n == 1:
        axis = axis[0]
    if ord in (None, "fro", "euclidean") or (ord == 2 and n == 1):
        return sqrt(sum(square(x), axis, keepdims))
    if n == 1 and ord == 1:
        return sum(abs(x), axis, keepdims)
    if n == 1 and ord in (float("inf"),):
        return max(abs(x), axis, keepdims)
    raise Unsupported(f"norm {ord}")


def vdot(x1, x2):
    return sum(ravel_(as_tensor(x1)) * ravel_(as_tensor(x2)))


def var(x, axis=None, keepdims=False):
    x = as_tensor(x)
    return mean(square(x - mean(x, axis, True)), axis, keepdims)


def log_softmax(x, axis=-1):
    x = as_tensor(x)
    return x - log(sum(exp(x), axis, True))


def logaddexp(a, b):
    return log(exp(a) + exp(b))


def log1p(x):
    return log(as_tensor(x) + 1.0)


def expm1(x):
    return exp(x) - 1.0


def logical_xor(a, b):
    return logical_and(logical_or(a, b), logical_not(logical_and(a, b)))


def nan_to_num(x, *a, **k):
    return as_tensor(x)


def copy(x):
    return as_tensor(x)


def array(x, dtype=None):
    return cast(x, dtype) if dtype is not None else as_tensor(x)


def append(x1, x2, axis=None):
    if axis is None:
        return concatenate([ravel_(as_tensor(x1)), ravel_(as_tensor(x2))], 0)
    return concatenate([x1, x2], axis)


def is_tensor(x):
    return isinstance(x, Tensor)


def slice(inputs, start_indices, shape):
    return as_tensor(inputs)[tuple(_b.slice(int(a), int(a) + int(n)) for a, n in _b.zip(start_indices, shape))]


# ------------------------------------------------------------- contractions
def dot(x, w):
    x, w = as_tensor(x), as_tensor(w)
    if x.ndim == 0 or w.ndim == 0:
        return x * w
    wa = w.ndim - 2 if w.ndim >= 2 else 0
    d, mx, mw = unify(x.dims[-1], w.dims[wa])
    nx = x.ndim - 1
    dims = x.dims[:-1] + w.dims[:wa] + w.dims[wa + 1 :]

    def fn(idx):
        xi, wi = idx[:nx], idx[nx:]
        return _sum_atoms(
            d, lambda t: T.mul(x.real(xi + (mx(t),)), w.real(wi[:wa] + (mw(t),) + wi[wa:]))
        )

    return Tensor(dims, fn, dtype=x.dtype)


def matmul(x, w):
    x, w = as_tensor(x), as_tensor(w)
    if w.ndim <= 2 and x.ndim >= 1:
        return dot(x, w)
    if x.ndim == 1:
        return squeeze(matmul(expand_dims(x, 0), w), -2)
    # batched
    d, mx, mw = unify(x.dims[-1], w.dims[-2])
    xb = Tensor(x.dims[:-2], lambda i: T.ZERO)
    wb = Tensor(w.dims[:-2], lambda i: T.ZERO)
    bd, maps = broadcast([xb, wb])
    n = len(bd)

    def fn(idx):
        bi = idx[:n]
        xi = tuple(maps[0][a](bi[a]) for a in range(n - xb.ndim, n))
        wi = tuple(maps[1][a](bi[a]) for a in range(n - wb.ndim, n))
        return _sum_atoms(d, lambda t: T.mul(x.real(xi + (idx[n], mx(t))), w.real(wi + (mw(t), idx[n + 1]))))

    return Tensor(bd + (x.dims[-2], w.dims[-1]), fn, dtype=x.dtype)


def tensordot(x, w, axes=2):
    x, w = as_tensor(x), as_tensor(w)
    if isinstance(axes, int):
        ax, aw = list(range(x.ndim - axes, x.ndim)), list(range(axes))
    else:
        ax = [axes[0]] if isinstance(axes[0], int) else list(axes[0])
        aw = [axes[1]] if isinstance(axes[1], int) else list(axes[1])
    ax = [_axis(a, x.ndim) for a in ax]
    aw = [_axis(a, w.ndim) for a in aw]
    kx = [i for i in range(x.ndim) if i not in ax]
    kw = [i for i in range(w.ndim) if i not in aw]
    us = [unify(x.dims[a], w.dims[b]) for a, b in zip(ax, aw)]

    def fn(idx):
        xi = [None] * x.ndim
        wi = [None] * w.ndim
        for i, v in zip(kx, idx):
            xi[i] = v
        for i, v in zip(kw, idx[len(kx) :]):
            wi[i] = v

        def rec(k, xi, wi):
            if k == len(us):
                return T.mul(x.real(tuple(xi)), w.real(tuple(wi)))
            d, mx, mw = us[k]

            def body(t):
                x2, w2 = list(xi), list(wi)
                x2[ax[k]] = mx(t)
                w2[aw[k]] = mw(t)
                return rec(k + 1, x2, w2)

            return _sum_atoms(d, body)

        return rec(0, xi, wi)

    return Tensor([x.dims[i] for i in kx] + [w.dims[i] for i in kw], fn)


def einsum(sub, *ops):
    ops = [as_tensor(o) for o in ops]
    sub = sub.replace(" ", "")
    ins, out = sub.split("->") if "->" in sub else (sub, None)
    ins = ins.split(",")
    n = 0
    for k, (t, o) in _b.enumerate(zip(ins, ops)):
        if "..." in t:
            m = o.ndim - len(t) + 3
            n = py_max(n, m)
            ins[k] = t.replace("...", "".join(chr(0x2460 + j) for j in _b.range(m))[::-1])
    if out is None:
        cs = "".join(ins)
        out = ("..." if "..." in sub else "") + "".join(sorted(c for c in set(cs) if cs.count(c) == 1 and c < chr(0x2460)))
    out = out.replace("...", "".join(chr(0x2460 + j) for j in _b.range(n))[::-1])
    dd = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.dims):
            dd[c] = unify(dd[c], d)[0] if c in dd and d != () else dd.get(c, d)
    red = [c for c in dd if c not in out]

    def fn(idx):
        env = dict(zip(out, idx))

        def rec(k, env):
            if k == len(red):
                return T.mul(
                    *[
                        o.real(tuple(unify(dd[c], d)[2](env[c]) for c, d in zip(s, o.dims)))
                        for s, o in zip(ins, ops)
                    ]
                )
            return _sum_atoms(dd[red[k]], lambda t: rec(k + 1, {**env, red[k]: t}))

        return rec(0, env)

    return Tensor([dd[c] for c in out], fn)


def batch_dot(x, y, axes=None):
    """keras.src.layers.merging.dot.batch_dot"""
    x, y = as_tensor(x), as_tensor(y)
    xd, yd = x.ndim, y.ndim
    if xd < 2 or yd < 2:
        raise ShapeError("batch_dot needs rank >= 2")
    if isinstance(axes, int):
        axes = [axes, axes]
    if axes is None:
        axes = [xd - 1, yd - 1] if yd == 2 else [xd - 1, yd - 2]
    a0, a1 = _axis(axes[0], xd), _axis(axes[1], yd)
    if a0 == 0 or a1 == 0:
        raise ShapeError("batch_dot over batch axis")
    db, mbx, mby = unify(x.dims[0], y.dims[0]) if x.dims[0] and y.dims[0] else (None, None, None)
    if db is None:
        if x.dims[0] != y.dims[0]:
            raise ShapeError("batch sizes")
        db, mbx, mby = (), (lambda t: t), (lambda t: t)
    d, mx, my = unify(x.dims[a0], y.dims[a1])
    kx = [i for i in range(1, xd) if i != a0]
    ky = [i for i in range(1, yd) if i != a1]
    dims = [db] + [x.dims[i] for i in kx] + [y.dims[i] for i in ky]

    def fn(idx):
        xi = [None] * xd
        yi = [None] * yd
        xi[0], yi[0] = mbx(idx[0]), mby(idx[0])
        for i, v in zip(kx, idx[1:]):
            xi[i] = v
        for i, v in zip(ky, idx[1 + len(kx) :]):
            yi[i] = v

        def body(t):
            x2, y2 = list(xi), list(yi)
            x2[a0], y2[a1] = mx(t), my(t)
            return T.mul(x.real(tuple(x2)), y.real(tuple(y2)))

        return _sum_atoms(d, body)

    out = Tensor(dims, fn)
    if xd == 2 and yd == 2:
        out = expand_dims(out, -1)
    return out


# ------------------------------------------------------------- convolutions
def _tup(v, n):
    return tuple(v) if isinstance(v, (tuple, list)) else (v,) * n


class ConvGeom:
    """assumed contract of a 2D window operation, one geometry = (spatial atoms of the input,
    strides, padding, dilation, kernel atoms):
      position map  sigma(o, p): index in the input read by output o at kernel offset p
      mask M(o,p) in {0,1}: 0 when that position lies in the zero padding
    Different axes are independent.  Both are uninterpreted."""

    cache = {}
    out_dims = {}

    @classmethod
    def get(cls, in_dim, k_dim, stride, pad, dil):
        key = (in_dim, k_dim, stride, pad, dil)
        g = cls.cache.get(key)
        if g is None:
            from .tensor import dim

            name = f"out({'*'.join(a.name for a in in_dim)},k{'*'.join(a.name for a in k_dim)},s{stride},{pad},d{dil})"
            if stride == 1 and pad == "same":
                o = in_dim
            elif k_dim == () and stride == 1:
                o = in_dim
            elif in_dim and all_con(in_dim) and all_con(k_dim):
                n, k = dsize(in_dim), dsize(k_dim)
                e = (k - 1) * dil + 1
                m = -(-n // stride) if pad == "same" else -(-(n - e + 1) // stride)
                o = (con(m),) if m > 1 else ()
            else:
                o = (dim(name),)
            g = cls.cache[key] = (o, f"{name}#{len(cls.cache)}")
        return g

    @classmethod
    def reset(cls):
        cls.cache = {}


def _geom_axis(in_dim, k_dim, stride, pad, dil):
    o, nm = ConvGeom.get(in_dim, k_dim, stride, pad, dil)

    def sigma(ot, pt):
        """(mask term, input index tuple)"""
        if all_con(in_dim) and all_con(k_dim) and all_con(o):
            n, k = dsize(in_dim), dsize(k_dim)
            oo, pp = ravel(ot, o).args[0], ravel(pt, k_dim).args[0]
            e = (k - 1) * dil + 1
            off = 0
            if pad == "same":
                tot = py_max((dsize(o) - 1) * stride + e - n, 0)
                off = tot // 2
            pos = oo * stride + pp * dil - off
            if 0 <= pos < n:
                return T.ONE, unravel(T.iconst(pos), in_dim)
            return T.ZERO, None
        if k_dim == () and stride == 1:
            return T.ONE, ot
        args = tuple(ot) + tuple(pt)
        m = T.ONE if pad == "valid" else T.mask("M_" + nm, *args)
        return m, tuple(T.ifun(f"sig{j}_" + nm, *args) for j in range(len(in_dim)))

    return o, sigma


def all_con(d):
    for a in d:
        if a.kind != "con":
            return False
    return True


def py_max(a, b):
    return a if a >= b else b


def conv(x, kernel, strides=1, padding="valid", data_format=None, dilation_rate=1):
    x, kernel = as_tensor(x), as_tensor(kernel)
    nsp = x.ndim - 2
    if kernel.ndim != nsp + 2:
        raise ShapeError("conv kernel rank")
    st, dl = _tup(strides, nsp), _tup(dilation_rate, nsp)
    cf = data_format == "channels_first"
    ca = 1 if cf else x.ndim - 1
    sp = [2 + i for i in range(nsp)] if cf else [1 + i for i in range(nsp)]
    gs = [_geom_axis(x.dims[a], kernel.dims[i], int(st[i]), padding, int(dl[i])) for i, a in enumerate(sp)]
    dc, mx, mk = unify(x.dims[ca], kernel.dims[-2])
    od = [g[0] for g in gs]
    fd = kernel.dims[-1]
    dims = [x.dims[0]] + ([fd] + od if cf else od + [fd])

    def fn(idx):
        b = idx[0]
        if cf:
            f, o = idx[1], idx[2:]
        else:
            o, f = idx[1:-1], idx[-1]

        def rec(i, ms, ins, ps):
            if i == nsp:
                def body(c):
                    xi = (b, mx(c)) + ins if cf else (b,) + ins + (mx(c),)
                    return T.mul(*ms, x.real(xi), kernel.real(ps + (mk(c), f)))

                return _sum_atoms(dc, body)

            def step(p):
                m, t = gs[i][1](o[i], p)
                if m is T.ZERO:
                    return T.ZERO
                return rec(i + 1, ms + (m,), ins + (t,), ps + (p,))

            return _sum_atoms(kernel.dims[i], step)

        return rec(0, (), (), ())

    return Tensor(dims, fn, dtype=x.dtype)


def extract_patches(x, size, strides=None, dilation_rate=1, padding="valid", data_format="channels_last"):
    x = as_tensor(x)
    sz = _tup(size, 2)
    if strides is None:
        strides = sz
    st, dl = _tup(strides, 2), _tup(dilation_rate, 2)
    cf = data_format == "channels_first"
    kd = [dim_of_int(s) for s in sz]
    sp = [2, 3] if cf else [1, 2]
    ca = 1 if cf else 3
    gs = [_geom_axis(x.dims[a], kd[i], int(st[i]), padding, int(dl[i])) for i, a in enumerate(sp)]
    od = [g[0] for g in gs]
    pd = kd[0] + kd[1] + x.dims[ca]
    dims = [x.dims[0]] + ([pd] + od if cf else od + [pd])
    n0, n1 = len(kd[0]), len(kd[1])

    def fn(idx):
        if cf:
            p, o = idx[1], idx[2:]
        else:
            o, p = idx[1:-1], idx[-1]
        p0, p1, c = p[:n0], p[n0 : n0 + n1], p[n0 + n1 :]
        m0, t0 = gs[0][1](o[0], p0)
        m1, t1 = gs[1][1](o[1], p1)
        if m0 is T.ZERO or m1 is T.ZERO:
            return T.ZERO
        xi = (idx[0], c, t0, t1) if cf else (idx[0], t0, t1, c)
        return T.mul(m0, m1, x.real(xi))

    return Tensor(dims, fn, dtype=x.dtype)


def max_pool(x, pool_size, strides=None, padding="valid", data_format=None):
    x = as_tensor(x)
    n = x.ndim - 2
    ps = _tup(pool_size, n)
    st = _tup(strides, n) if strides is not None else ps
    cf = data_format == "channels_first"
    sp = [2 + i for i in range(n)] if cf else [1 + i for i in range(n)]
    kd = [dim_of_int(s) for s in ps]
    gs = [_geom_axis(x.dims[a], kd[i], int(st[i]), padding, 1) for i, a in enumerate(sp)]
    dims = list(x.dims)
    for i, a in enumerate(sp):
        dims[a] = gs[i][0]

    def fn(idx):
        o = [idx[a] for a in sp]
        vals = []

        def rec(i, ms, ins):
            if i == n:
                full = list(idx)
                for a, t in zip(sp, ins):
                    full[a] = t
                vals.append((T.mul(*ms) if ms else T.ONE, x.real(tuple(full))))
                return
            for k in range(dsize(kd[i])):
                pt = unravel(T.iconst(k), kd[i])
                m, t = gs[i][1](o[i], pt)
                if m is T.ZERO:
                    continue
                rec(i + 1, ms + (m,), ins + (t,))

        rec(0, (), ())
        if py_all(m is T.ONE for m, _ in vals):
            r = vals[0][1]
            for _, v in vals[1:]:
                r = T.tmax(r, v)
            return r
        return T.mk("maxmask", *[e for m, v in vals for e in (m, v)])

    return Tensor(dims, fn, dtype=x.dtype)


def py_all(it):
    for v in it:
        if not v:
            return False
    return True


def average_pool(*a, **k):
    raise Unsupported("average_pool")


def solve(a, b):
    raise Unsupported("solve")


def while_loop(cond, body, loop_vars, maximum_iterations=None):
    raise Unsupported("while_loop")


def cond(pred, t, f):
    raise Unsupported("cond")


def vectorized_map(f, x):
    raise Unsupported("vectorized_map")


# ------------------------------------------------------------- numpy dispatch
def _np_reshape(a, newshape=None, *args, **kw):
    return reshape(a, newshape if newshape is not None else kw.get("shape"))


def _np_sum(a, axis=None, keepdims=False, **kw):
    return sum(a, axis, keepdims)


def _np_max(a, axis=None, keepdims=False, **kw):
    return max(a, axis, keepdims)


def _np_min(a, axis=None, keepdims=False, **kw):
    return min(a, axis, keepdims)


NP = {
    "reshape": _np_reshape,
    "sum": _np_sum,
    "max": _np_max,
    "amax": _np_max,
    "min": _np_min,
    "amin": _np_min,
    "maximum": maximum,
    "minimum": minimum,
    "clip": lambda a, lo, hi, **k: clip(a, lo, hi),
    "concatenate": lambda xs, axis=0, **k: concatenate(xs, axis),
    "stack": lambda xs, axis=0, **k: stack(xs, axis),
    "expand_dims": expand_dims,
    "squeeze": squeeze,
    "transpose": transpose,
    "repeat": lambda a, r, axis=None: repeat(a, r, axis),
    "where": where,
    "abs": abs,
    "sign": sign,
    "zeros_like": lambda a, **k: zeros_like(a),
    "ones_like": lambda a, **k: ones_like(a),
    "argmax": lambda a, axis=None, **k: argmax(a, axis),
    "argmin": lambda a, axis=None, **k: argmin(a, axis),
    "prod": lambda a, axis=None, **k: prod(a, axis),
    "dot": dot,
    "mean": lambda a, axis=None, **k: mean(a, axis),
    "shape": shape,
    "ndim": ndim,
    "split": lambda a, n, axis=0: split(a, n, axis),
    "ravel": lambda a, **k: reshape(a, (-1,)),
    "broadcast_to": lambda a, s, **k: broadcast_to(a, s),
    "copy": lambda a, **k: a,
    "diag": diag,
    "cumsum": lambda a, axis=None, **k: cumsum(a, axis),
    "sort": lambda a, axis=-1, **k: sort(a, axis),
    "swapaxes": swapaxes,
    "moveaxis": moveaxis,
    "tile": tile,
}

_PRIVATE = {"ravel_": "ravel", "any_": "any"}


def namespace():
    out = {}
    for k, v in globals().items():
        if k.startswith("_") or k in ("T", "NP", "USED", "Tensor", "Atom", "numbers", "namespace"):
            continue
        if callable(v) and not isinstance(v, type):
            out[_PRIVATE.get(k, k)] = v
    for k in ("con", "dsize", "ew", "cmp", "unify", "unravel", "deltas", "as_tensor", "atom_indices", "broadcast",
              "dim_of_int", "from_numpy", "getitem", "index_value", "sum_atom", "all_con", "py_max", "py_all", "take_at",
              "scalar_", "batch_dot", "extract_patches"):
        out.pop(k, None)
    from .tensor import ravel as _r

    out["ravel"] = ravel_
    return out
