"""numpy as seen by the code under contract: symbolic tensors go to the engine, everything else to numpy.

In-place operations on symbolic arrays are rebinding (`a -= b` is `a = a - b`)."""
import numpy as _np

from . import kops as K
from . import terms as T
from .tensor import Tensor, Unsupported, as_tensor

BIG = 10**5  # sizes above are codes of symbolic dimensions


def sym(v):
    if isinstance(v, Tensor):
        return True
    if isinstance(v, (list, tuple)):
        return any(sym(x) for x in v)
    return False


def _ax(axis):
    return axis


def red(name):
    f, g = getattr(K, name), getattr(_np, name)

    def h(a, axis=None, keepdims=False, **k):
        if not sym(a):
            return g(a, axis=axis, keepdims=keepdims, **k)
        if k:
            raise Unsupported(f"numpy.{name} with {sorted(k)}")
        return f(as_tensor(a), axis=axis, keepdims=keepdims)

    return h


def fwd(name, kname=None):
    f, g = getattr(K, kname or name), getattr(_np, name)

    def h(*a, **k):
        if not any(sym(x) for x in a) and not any(sym(x) for x in k.values()):
            return g(*a, **k)
        k.pop("dtype", None)
        return f(*a, **k)

    return h


def _shape(s):
    return (int(s),) if isinstance(s, (int, _np.integer)) else tuple(int(d) for d in s)


def _make(name):
    f, g = getattr(K, name), getattr(_np, name)

    def h(shape, *a, **k):
        if all(d < 100 for d in _shape(shape)):
            return g(shape, *a, **k)
        k.pop("dtype", None)
        return f(_shape(shape), *a)

    return h


class Linalg:
    def __getattr__(self, n):
        return getattr(_np.linalg, n)

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        if not sym(x):
            return _np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
        if axis is None or isinstance(axis, tuple):
            raise Unsupported("norm of a matrix")
        if ord is None or ord == 2:
            return K.sqrt(K.sum(x * x, axis=axis, keepdims=keepdims))
        if ord == 1:
            return K.sum(K.abs(x), axis=axis, keepdims=keepdims)
        if ord == _np.inf:
            return K.max(K.abs(x), axis=axis, keepdims=keepdims)
        raise Unsupported(f"norm {ord}")


class NP:
    ndarray = (Tensor, _np.ndarray)
    linalg = Linalg()

    def __init__(self):
        for n in ("sum", "max", "min", "mean", "prod", "any", "all"):
            if hasattr(K, n):
                setattr(self, n, red(n))
        self.amax, self.amin = self.max, self.min
        for n in ("maximum", "minimum", "abs", "sqrt", "concatenate", "stack", "expand_dims", "squeeze", "transpose", "moveaxis",
                  "swapaxes", "repeat", "tile", "zeros_like", "ones_like", "full_like", "sign", "square", "add", "subtract", "multiply",
                  "divide", "negative", "clip", "greater", "less", "greater_equal", "less_equal", "equal", "not_equal", "logical_and",
                  "logical_or", "logical_not", "einsum", "matmul", "dot", "tensordot", "cumsum", "split", "hstack", "vstack",
                  "flip", "power"):
            if hasattr(K, n):
                setattr(self, n, fwd(n))
        self.absolute = self.abs
        for n in ("zeros", "ones"):
            setattr(self, n, _make(n))

    def __getattr__(self, n):
        return getattr(_np, n)

    def reshape(self, a, shape, *r):
        if sym(a):
            return K.reshape(as_tensor(a), tuple(int(d) for d in ([shape] if isinstance(shape, int) else shape)))
        return _np.reshape(a, shape, *r)

    def diag(self, a, k=0):
        if isinstance(a, (list, tuple)) and len(a) > 100 and not k and all(x == 1 for x in a):
            return K.eye(len(a))
        return K.diag(as_tensor(a), k) if sym(a) else _np.diag(a, k)

    def where(self, c, a=None, b=None):
        if isinstance(b, float) and b == -_np.inf and isinstance(c, _np.ndarray) and sym(a):
            # entries left at minus infinity: a number about which nothing is known
            return K.where(c, a, Tensor(as_tensor(a).dims, lambda i: T.app("neginf", *[k for d in i for k in d])))
        if sym(c) or sym(a) or sym(b):
            return K.where(c, a, b)
        return _np.where(c) if a is None else _np.where(c, a, b)

    def array(self, a, *r, **k):
        if sym(a):
            return as_tensor(a)
        return _np.array(a, *r, **k)

    asarray = array

    def copy(self, a):
        return a if sym(a) else _np.copy(a)

    def prod_(self, a):
        return _np.prod(a)


def install(module):
    """rebind np in the module for the current case"""
    from . import modular

    if module.__dict__.get("np") is None:
        return
    modular.patch_attr(module, "np", NP())
