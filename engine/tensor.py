"""Symbolic tensors: shape made of atomic symbolic dimensions, element function index -> term.

A dimension is a tuple of atoms (row-major product).  Flattening concatenates
the tuples, so reshape is a regrouping of the ordered list of atoms.  A symbolic
atom is shown to the executed code as a distinct prime number, so that the
integer arithmetic the code does on shapes runs natively.
"""
import itertools
import numbers

import numpy as _np

from . import terms as T


class Unsupported(Exception):
    pass


class ShapeError(ValueError):
    """what a real backend would raise on incompatible shapes"""


class Atom:
    __slots__ = ("name", "size", "concrete", "kind", "parts")

    def __init__(self, name, size, concrete=None, kind="sym", parts=None):
        self.name = name
        self.size = size
        self.concrete = concrete
        self.kind = kind  # sym | con | comp | sum
        self.parts = parts

    def __repr__(self):
        return f"{self.name}"


_con = {}


def con(k):
    a = _con.get(k)
    if a is None:
        a = _con[k] = Atom(str(k), k, concrete=k, kind="con")
    return a


def _primes():
    n = 101
    while True:
        if all(n % d for d in range(2, int(n**0.5) + 1)):
            yield n
        n += 2


class Reg:
    primes = None
    by_size = {}
    comps = {}
    sums = {}


def reset_dims():
    Reg.primes = _primes()
    Reg.by_size = {}
    Reg.comps = {}
    Reg.sums = {}


reset_dims()


def dim(name):
    p = next(Reg.primes)
    a = Atom(name, p)
    Reg.by_size[p] = a
    return a


def dim_of_int(n):
    """tuple of atoms for an integer given by the executed code"""
    n = int(n)
    if n == 1:
        return ()
    if n in Reg.by_size:
        return (Reg.by_size[n],)
    if n in Reg.sums:
        return (Reg.sums[n],)
    if n in Reg.comps:
        return (Reg.comps[n],)
    if n < 101:
        return (con(n),)
    m = n
    fac = []
    for p, a in list(Reg.by_size.items()) + list(Reg.sums.items()):
        while m % p == 0:
            fac.append(a)
            m //= p
    if not fac:
        if n <= 4096:
            return (con(n),)
        raise Unsupported(f"integer {n} is not a dimension")
    c = Atom("x".join(f.name for f in fac) + (f"x{m}" if m > 1 else ""), n, kind="comp", parts=(fac, m))
    Reg.comps[n] = c
    return (c,)


def dsize(d):
    s = 1
    for a in d:
        s *= a.size
    return s


def sum_atom(parts):
    """disjoint sum of dims (tuples of atoms)"""
    n = sum(dsize(p) for p in parts)
    a = Reg.sums.get(n)
    if a is not None:
        if len(a.parts) == len(parts) and all(p == q for p, q in zip(a.parts, parts)):
            return a
        # a different composition with the same size: keep a distinct object
    na = Atom("(" + "+".join("*".join(x.name for x in p) or "1" for p in parts) + ")", n, kind="sum", parts=tuple(parts))
    if a is None:
        Reg.sums[n] = na
    return na


def norm_dim(d):
    return tuple(d)


# ---------------------------------------------------------------- index helpers
def unify(da, db):
    """common refinement; returns (dim, mapa, mapb) with maps idx(tuple)->idx(tuple)"""
    ident = lambda t: t
    if da == db:
        return da, ident, ident
    if dsize(da) != dsize(db):
        raise ShapeError(f"incompatible dimensions {da} and {db}")
    if len(da) == 1 and da[0].kind == "comp":
        return db, (lambda t: (T.ipack(t),)), ident
    if len(db) == 1 and db[0].kind == "comp":
        return da, ident, (lambda t: (T.ipack(t),))
    if all(a.kind == "con" for a in da) and all(a.kind == "con" for a in db):
        return da, ident, (lambda t: unravel(ravel(t, da), db))
    for x, y, swap in ((da, db, False), (db, da, True)):
        r = _repeated(x, y)
        if r:
            return (y, r, ident) if not swap else (y, ident, r)
    # peel equal heads/tails
    if da and db and da[0] == db[0]:
        d, ma, mb = unify(da[1:], db[1:])
        return (da[0],) + d, (lambda t: (t[0],) + ma(t[1:])), (lambda t: (t[0],) + mb(t[1:]))
    if da and db and da[-1] == db[-1]:
        d, ma, mb = unify(da[:-1], db[:-1])
        return d + (da[-1],), (lambda t: ma(t[:-1]) + (t[-1],)), (lambda t: mb(t[:-1]) + (t[-1],))
    raise Unsupported(f"dimensions {da} and {db} have the same size but a different factorisation")


def _repeated(s, d):
    """s is the n-fold disjoint sum of P and d is n x P: the map from an index of d to an index of s"""
    if len(s) != 1 or s[0].kind != "sum":
        return None
    P = s[0].parts[0]
    k = len(d) - len(P)
    if k < 1 or any(q != P for q in s[0].parts) or tuple(d[k:]) != tuple(P) or any(a.kind != "con" for a in d[:k]):
        return None
    if dsize(d[:k]) != len(s[0].parts):
        return None
    return lambda t: (T.iinj(ravel(t[:k], d[:k]).args[0], *t[k:]),)


def unravel(i, d):
    if i.op != "ic":
        raise Unsupported("symbolic index into a concrete dimension")
    k = i.args[0]
    out = []
    for a in reversed(d):
        out.append(T.iconst(k % a.concrete))
        k //= a.concrete
    return tuple(reversed(out))


def ravel(t, d):
    k = 0
    for i, a in zip(t, d):
        if i.op != "ic":
            raise Unsupported("symbolic index into a concrete dimension")
        k = k * a.concrete + i.args[0]
    return T.iconst(k)


def fresh_indices(d, names="i"):
    """all index tuples of dim d: concrete atoms are enumerated, symbolic ones skolemised"""
    if not d:
        yield ()
        return
    for head in atom_indices(d[0]):
        for tail in fresh_indices(d[1:]):
            yield (head,) + tail


def atom_indices(a):
    if a.kind == "con":
        for k in range(a.concrete):
            yield T.iconst(k)
    elif a.kind == "sum":
        for tag, p in enumerate(a.parts):
            for sub in fresh_indices(p):
                yield T.iinj(tag, *sub)
    else:
        yield T.ivar(a, a.name)


def all_indices(dims):
    """all (skolemised) multi-indices of a tensor with these dims"""
    if not dims:
        yield ()
        return
    for h in fresh_indices(dims[0]):
        for t in all_indices(dims[1:]):
            yield (h,) + t


# ---------------------------------------------------------------- tensors
ALLEXT = []  # the extremum over a whole array as a named number, its definition used only at the entries a contract asks for
DECIDE = []  # how a python branch on a symbolic boolean is decided, when the contract says it is decided


class Tensor:
    __array_ufunc__ = None
    __array_priority__ = 10000

    def __init__(self, dims, fn, kind="real", dtype="float32", name=None):
        self.dims = tuple(tuple(d) for d in dims)
        self._fn = fn
        self._memo = {}
        self.kind = kind  # real | bool | index
        self.dtype = dtype if kind == "real" else ("bool" if kind == "bool" else "int32")
        self.name = name or "t"
        self.const = None  # the common value of all elements, when known

    # -- element access
    def at(self, idx):
        idx = tuple(tuple(i) for i in idx)
        r = self._memo.get(idx)
        if r is None:
            r = self._memo[idx] = self._fn(idx)
        return r

    def real(self, idx):
        t = self.at(idx)
        if self.kind == "bool":
            return T.ind(t)
        if self.kind == "index":
            return index_value(t)
        return t

    @property
    def shape(self):
        return tuple(dsize(d) for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    def __len__(self):
        if not self.dims:
            raise TypeError("len() of a scalar tensor")
        return dsize(self.dims[0])

    def __bool__(self):
        if not self.dims and self.kind == "bool":
            t = self.at(())
            if t is T.TRUE:
                return True
            if t is T.FALSE:
                return False
        if DECIDE and self.size1() and self.kind == "bool":
            return DECIDE[-1](self.at(tuple(() for _ in self.dims)))
        raise Unsupported("python branch on a symbolic value")

    def size1(self):
        return all(not d for d in self.dims)

    def __iter__(self):
        n = len(self)
        if len(self.dims[0]) == 1 and self.dims[0][0].kind == "con" or n == 1:
            return (self[i] for i in range(n))
        raise Unsupported("python iteration over a symbolic dimension")

    def __array_function__(self, func, types, args, kwargs):
        from . import kops

        h = kops.NP.get(func.__name__)
        if h is None:
            raise Unsupported(f"numpy.{func.__name__} on a symbolic tensor")
        return h(*args, **kwargs)

    def __float__(self):
        raise Unsupported("float() of a symbolic tensor")

    def __hash__(self):
        return id(self)

    # -- operators
    def __add__(self, o):
        return ew(T.add, self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return ew(T.sub, self, o)

    def __rsub__(self, o):
        return ew(T.sub, o, self)

    def __mul__(self, o):
        return ew(T.mul, self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return ew(lambda a, b: T.mul(a, T.recip(b)), self, o)

    def __rtruediv__(self, o):
        return ew(lambda a, b: T.mul(a, T.recip(b)), o, self)

    def __neg__(self):
        return ew(T.neg, self)

    def __abs__(self):
        return ew(T.tabs, self)

    def __pow__(self, p):
        from . import kops

        return kops.power(self, p)

    def __ge__(self, o):
        return cmp(T.ge, self, o)

    def __le__(self, o):
        return cmp(T.ge, o, self)

    def __gt__(self, o):
        return cmp(T.gt, self, o)

    def __lt__(self, o):
        return cmp(T.gt, o, self)

    def __eq__(self, o):
        if isinstance(o, (Tensor, numbers.Number, _np.ndarray)):
            return cmp(T.eq, self, o)
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (Tensor, numbers.Number, _np.ndarray)):
            return cmp(lambda a, b: T.lnot(T.eq(a, b)), self, o)
        return NotImplemented

    def __matmul__(self, o):
        from . import kops

        return kops.matmul(self, o)

    def __getitem__(self, item):
        return getitem(self, item)

    # torch/tf flavoured conveniences
    def numpy(self):
        return self

    def reshape(self, *s):
        from . import kops

        return kops.reshape(self, s[0] if len(s) == 1 and not isinstance(s[0], int) else s)

    # numpy flavoured
    def astype(self, dtype):
        return self

    def copy(self):
        return self

    def _red(self, name, axis=None, keepdims=False):
        from . import kops

        return getattr(kops, name)(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, keepdims=False):
        if axis is None and ALLEXT:
            return ALLEXT[-1](self, "max")
        return self._red("max", axis, keepdims)

    def min(self, axis=None, keepdims=False):
        if axis is None and ALLEXT:
            return ALLEXT[-1](self, "min")
        return self._red("min", axis, keepdims)

    def sum(self, axis=None, keepdims=False):
        return self._red("sum", axis, keepdims)

    def flatten(self):
        from . import kops

        return kops.reshape(self, (-1,))

    @property
    def size(self):
        n = 1
        for d in self.shape:
            n *= d
        return n

    @property
    def T(self):
        from . import kops

        return kops.transpose(self)

    def __repr__(self):
        return f"<sym {self.name} {[ '*'.join(a.name for a in d) or '1' for d in self.dims]}>"


def index_value(t):
    if t.op == "ic":
        return T.const(t.args[0])
    return T.app("#idx", t)


def declare(name, *dims, dtype="float32"):
    """an unconstrained input tensor"""
    dims = tuple((d,) if isinstance(d, Atom) else tuple(d) for d in dims)

    def f(idx):
        return T.app(name, *[i for t in idx for i in t])

    return Tensor(dims, f, name=name, dtype=dtype)


def scalar(t):
    return Tensor((), lambda idx: t)


def as_tensor(v, dtype=None):
    if isinstance(v, Tensor):
        return v
    if hasattr(v, "_symbolic_value"):
        return v._symbolic_value()
    if isinstance(v, (bool, _np.bool_)):
        t = T.TRUE if v else T.FALSE
        return Tensor((), lambda idx: t, kind="bool")
    if isinstance(v, numbers.Number):
        t = T.const(v)
        return Tensor((), lambda idx: t)
    if isinstance(v, (list, tuple)):
        if any(isinstance(x, Tensor) for x in v):
            from . import kops

            return kops.stack([as_tensor(x) for x in v], 0)
        v = _np.array(v)
    if isinstance(v, _np.ndarray):
        return from_numpy(v)
    raise Unsupported(f"cannot turn {type(v)} into a tensor")


def from_numpy(v):
    if v.ndim == 0:
        return as_tensor(v.item())
    dims = []
    for s in v.shape:
        dims.append(dim_of_int(s))
    if v.size and all(len(d) == 0 or d[0].kind == "con" for d in dims):

        def f(idx):
            k = []
            for t in idx:
                if not t:
                    k.append(0)
                else:
                    if t[0].op != "ic":
                        raise Unsupported("symbolic index into a numpy constant")
                    k.append(t[0].args[0])
            x = v[tuple(k)]
            if v.dtype == bool:
                return T.TRUE if x else T.FALSE
            return T.const(x.item())

        return Tensor(dims, f, kind="bool" if v.dtype == bool else "real")
    if v.size == 0:
        return Tensor(dims, lambda idx: T.ZERO)
    u = _np.unique(v)
    if len(u) == 1:
        c = T.const(u[0].item())
        return Tensor(dims, lambda idx: c)
    if v.ndim >= 2 and v.shape[-1] == v.shape[-2] and _np.array_equal(v, _np.broadcast_to(_np.eye(v.shape[-1]), v.shape)):
        return Tensor(dims, lambda idx: deltas(idx[-2], idx[-1]))
    raise Unsupported("non constant numpy array over symbolic dimensions")


def deltas(a, b):
    if len(a) != len(b):
        a = (T.ipack(a),) if len(a) > 1 else a
        b = (T.ipack(b),) if len(b) > 1 else b
    return T.mul(*[T.delta(i, j) for i, j in zip(a, b)]) if a else T.ONE


# broadcasting elementwise ------------------------------------------------
def uniform(dims, v, kind="real", dtype="float32"):
    """every element is v"""
    t = Tensor(dims, lambda idx: v, kind=kind, dtype=dtype)
    t.const = v
    return t


def broadcast(tensors):
    n = max(len(t.dims) for t in tensors)
    out_dims = [()] * n
    maps = [[None] * n for _ in tensors]  # per tensor per out axis: map idx->idx
    for ax in range(n):
        cur = ()
        # first unify all non trivial dims
        ds = []
        for k, t in enumerate(tensors):
            j = ax - (n - len(t.dims))
            if j >= 0:
                ds.append((k, t.dims[j]))
        for k, d in sorted(ds, key=lambda e: tensors[e[0]].const is not None):
            if d == ():
                continue
            if cur == ():
                cur = d
            elif tensors[k].const is not None:
                if dsize(cur) != dsize(d):
                    raise ShapeError(f"incompatible dimensions {cur} and {d}")
            else:
                cur, _, _ = unify(cur, d)
        out_dims[ax] = cur
        for k, d in ds:
            if d == () or tensors[k].const is not None:
                maps[k][ax] = lambda t: ()
            else:
                _, _, mb = unify(cur, d)
                maps[k][ax] = mb
    return tuple(out_dims), maps


def ew(f, *args, kind="real", get="real"):
    ts = [as_tensor(a) for a in args]
    dims, maps = broadcast(ts)
    n = len(dims)

    def fn(idx):
        vals = []
        for t, m in zip(ts, maps):
            k = n - len(t.dims)
            ii = tuple(m[a](idx[a]) for a in range(k, n))
            vals.append(t.real(ii) if get == "real" else t.at(ii))
        return f(*vals)

    dtype = next((t.dtype for t in ts if t.kind == "real" and t.dims), "float32")
    if kind == "real" and get == "real" and all(t.const is not None or (not t.dims and t.kind == "real") for t in ts):
        return uniform(dims, f(*[t.const if t.const is not None else t.real(()) for t in ts]), dtype=dtype)
    return Tensor(dims, fn, kind=kind, dtype=dtype)


def cmp(f, a, b):
    return ew(f, a, b, kind="bool")


# indexing -----------------------------------------------------------------
def getitem(x, item):
    if not isinstance(item, tuple):
        item = (item,)
    if any(isinstance(i, (list, _np.ndarray, Tensor)) for i in item):
        return fancy(x, item)
    n_real = sum(1 for i in item if i is not None and i is not Ellipsis)
    if any(i is Ellipsis for i in item):
        k = next(j for j, i in enumerate(item) if i is Ellipsis)
        item = item[:k] + (slice(None),) * (len(x.dims) - n_real) + item[k + 1 :]
    else:
        item = item + (slice(None),) * (len(x.dims) - n_real)
    out_dims = []
    plan = []  # per source axis: function(out idx)->idx
    ax = 0
    for it in item:
        if it is None:
            out_dims.append(())
            continue
        if ax >= len(x.dims):
            raise IndexError("too many indices")
        d = x.dims[ax]
        if isinstance(it, slice):
            if it == slice(None):
                o = len(out_dims)
                out_dims.append(d)
                plan.append(lambda idx, o=o: idx[o])
            else:
                nd, mp = slice_dim(d, it)
                o = len(out_dims)
                out_dims.append(nd)
                plan.append(lambda idx, o=o, mp=mp: mp(idx[o]))
        else:
            if hasattr(it, "__index__"):
                c = int_index(d, it.__index__())
                plan.append(lambda idx, c=c: c)
            else:
                raise Unsupported(f"index {it!r}")
        ax += 1

    def fn(idx):
        return x.at(tuple(p(idx) for p in plan))

    return Tensor(out_dims, fn, kind=x.kind, dtype=x.dtype)


def int_index(d, k):
    n = dsize(d)
    if k < 0:
        k += n
    if not 0 <= k < n:
        raise IndexError(f"index {k} out of range for dimension {d}")
    if d == ():
        return ()
    if all(a.kind == "con" for a in d):
        return unravel(T.iconst(k), d)
    # position k of a symbolic dimension: literal position
    if len(d) == 1 and d[0].kind == "sym":
        return (T.iconst(k),)
    if len(d) == 1 and d[0].kind == "sum":
        off = 0
        for tag, p in enumerate(d[0].parts):
            s = dsize(p)
            if k < off + s:
                return (T.iinj(tag, *int_index(p, k - off)),)
            off += s
    out = []
    for a in reversed(d):
        out.append(T.iconst(k % a.size))
        k //= a.size
    return tuple(reversed(out))


def slice_dim(d, sl):
    n = dsize(d)
    start, stop, step = sl.indices(n)
    if (start, stop, step) == (0, n, 1):
        return d, (lambda t: t)
    if d == () or all(a.kind == "con" for a in d):
        rng = range(start, stop, step)
        m = len(rng)
        if m == 1:
            c = unravel(T.iconst(rng[0]), d)
            return (), (lambda t: c)
        if m == 0:
            return (con(0),), (lambda t: (_ for _ in ()).throw(Unsupported("empty slice")))

        def mp(t):
            if t[0].op != "ic":
                raise Unsupported("symbolic index into a slice")
            return unravel(T.iconst(rng[t[0].args[0]]), d)

        return (con(m),), mp
    if len(d) == 1 and d[0].kind == "sum" and step == 1:
        # slice along part boundaries
        off = 0
        bounds = []
        for p in d[0].parts:
            bounds.append(off)
            off += dsize(p)
        bounds.append(off)
        if start in bounds and stop in bounds and start < stop:
            a, b = bounds.index(start), bounds.index(stop)
            parts = d[0].parts[a:b]
            if len(parts) == 1:
                return parts[0], (lambda t: (T.iinj(a, *t),))
            sa = sum_atom(parts)

            def mp(t):
                i = t[0]
                if i.op != "inj":
                    raise Unsupported("symbolic index into a sum dimension")
                return (T.iinj(i.args[0] + a, *i.args[1:]),)

            return (sa,), mp
    # slice of literal positions of a symbolic dim
    rng = range(start, stop, step)
    m = len(rng)
    if m <= 8:
        if m == 1:
            c = int_index(d, rng[0])
            return (), (lambda t: c)
        return (con(m),), (lambda t: int_index(d, rng[t[0].args[0]]))
    raise Unsupported(f"slice {sl} of a symbolic dimension")


def fancy(x, item):
    """x[[i,j,..]] / boolean masks on concrete dims only"""
    if len(item) == 1 and isinstance(item[0], (list, _np.ndarray)):
        from . import kops

        ks = list(_np.asarray(item[0]).ravel())
        return kops.stack([x[int(k)] for k in ks], 0)
    raise Unsupported("fancy indexing")
