"""Numbers for the symbolic tensors of engine/: sizes are given to the symbolic dimensions, arrays to the declared tensors."""
import itertools
import math

import numpy as np

from engine import kops
from engine import tensor as S
from engine import terms as T

FN = {
    "exp": math.exp, "log": math.log, "sqrt": math.sqrt, "tanh": math.tanh, "sigmoid": lambda x: 1 / (1 + math.exp(-x)),
    "softplus": lambda x: math.log1p(math.exp(x)), "softsign": lambda x: x / (1 + abs(x)),
    "elu": lambda x: x if x > 0 else math.exp(x) - 1, "silu": lambda x: x / (1 + math.exp(-x)),
    "selu": lambda x: 1.0507009873554805 * (x if x > 0 else 1.6732632423543772 * (math.exp(x) - 1)),
    "gelu": lambda x: 0.5 * x * (1 + math.tanh(0.7978845608028654 * (x + 0.044715 * x**3))),
    "hard_sigmoid": lambda x: min(max(x / 6 + 0.5, 0.0), 1.0), "log_sigmoid": lambda x: -math.log1p(math.exp(-x)),
}


class Value:
    def __init__(self, sizes, arrays):
        self.sizes = sizes  # name of a symbolic dimension -> int
        self.arrays = arrays  # name of a declared tensor -> array, one axis per atom
        self.memo = {}

    # ---- dimensions
    def asize(self, a):
        if a.kind == "con":
            return a.concrete
        if a.kind == "sum":
            return sum(self.dsize(p) for p in a.parts)
        if a.kind == "comp":
            fac, m = a.parts
            return math.prod(self.asize(f) for f in fac) * m
        if a.name in self.sizes:
            return self.sizes[a.name]
        for (ind, kd, st, pad, dl), (o, nm) in kops.ConvGeom.cache.items():
            if o == (a,):
                n, e = self.dsize(ind), (self.dsize(kd) - 1) * dl + 1
                return -(-n // st) if pad == "same" else -(-(n - e + 1) // st)
        raise KeyError(a.name)

    def dsize(self, d):
        return math.prod(self.asize(a) for a in d)

    def indices(self, a):
        """index terms of an atom and their values, in order"""
        if a.kind == "con":
            return [T.iconst(k) for k in range(a.concrete)]
        if a.kind == "sum":
            return [T.iinj(tag, *s) for tag, p in enumerate(a.parts) for s in self.dindices(p)]
        # a symbolic atom: index constants stand for its indices
        return [T.iconst(k) for k in range(self.asize(a))]

    def dindices(self, d):
        return list(itertools.product(*[self.indices(a) for a in d]))

    def array(self, t):
        """value of a tensor"""
        axes = [self.dindices(d) for d in t.dims]
        out = np.zeros([len(a) for a in axes])
        for k in itertools.product(*[range(len(a)) for a in axes]):
            idx = tuple(a[j] for a, j in zip(axes, k))
            if t.kind == "bool":
                out[k] = self.cond(t.at(idx), {})
            elif t.kind == "index":
                out[k] = self.index(t.at(idx), {})
            else:
                out[k] = self.real(t.at(idx), {})
        return out

    # ---- index terms
    def index(self, t, env):
        op = t.op
        if op == "ic":
            return t.args[0]
        if op in ("iv", "bv"):
            return env[t]
        if op == "inj":
            return ("inj", t.args[0]) + tuple(self.index(a, env) for a in t.args[1:])
        if op == "pack":
            return tuple(self.index(a, env) for a in t.args)
        if op == "if":
            return self.position(t.args[0], [self.index(a, env) for a in t.args[1:]])[1]
        if op == "iarg":
            kind, b, body = t.args
            vs = [self.real(body, {**env, b: k}) for k in self.range(b.args[0])]
            return int(np.argmax(vs) if kind == "argmax" else np.argmin(vs))
        if op == "iargc":
            vs = [self.real(a, env) for a in t.args[1:]]
            return int(np.argmax(vs) if t.args[0] == "argmax" else np.argmin(vs))
        raise KeyError(op)

    def last(self, k, n):
        """an entry counted from the end of a symbolic dimension"""
        if k < n:
            return k
        return next(n - (p - k) for p in S.Reg.by_size if 0 < p - k <= 3)

    def range(self, a):
        if a.kind in ("sym", "con", "comp"):
            return range(self.asize(a))
        return [self.index(i, {}) for i in self.indices(a)]

    def position(self, name, idx):
        """(inside, position) of the window entry idx = (output, offset) of a convolution axis"""
        nm = name.split("_", 1)[1]
        for (ind, kd, st, pad, dl), (o, n_) in kops.ConvGeom.cache.items():
            if n_ == nm:
                no = len(o)
                oo = pp = 0
                for a, i in zip(o, idx[:no]):
                    oo = oo * self.asize(a) + i
                for a, i in zip(kd, idx[no:]):
                    pp = pp * self.asize(a) + i
                n, off = self.dsize(ind), 0
                if pad == "same":
                    m = self.dsize(o)
                    off = max((m - 1) * st + (self.dsize(kd) - 1) * dl + 1 - n, 0) // 2
                pos = oo * st + pp * dl - off
                ok = 0 <= pos < n
                return ok, (pos if ok else 0)
        raise KeyError(name)

    # ---- terms
    def real(self, t, env):
        e = tuple(sorted((b.id, v) for b, v in env.items() if b in t.fv)) if env else ()
        key = (t, e)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._real(t, env)
        return r

    def _real(self, t, env):
        op, a = t.op, t.args
        R = lambda x: self.real(x, env)
        if op == "c":
            return float(a[0])
        if op == "app":
            n = a[0]
            if n == "+oo":
                return math.inf
            if n == "#idx":
                return float(self.index(a[1], env))
            if n.startswith("#"):
                return float(self.sizes[n[1:]])
            idx = [self.index(i, env) for i in a[1:]]
            return float(self.arrays[n][tuple(self.last(k, m) for k, m in zip(idx, self.arrays[n].shape))])
        if op == "+":
            return sum(R(x) for x in a)
        if op == "*":
            r = 1.0
            for x in a:
                r *= R(x)
                if r == 0:
                    return 0.0
            return r
        if op == "max":
            return max(R(x) for x in a)
        if op == "min":
            return min(R(x) for x in a)
        if op == "abs":
            return abs(R(a[0]))
        if op == "sign":
            return float(np.sign(R(a[0])))
        if op == "recip":
            return 1 / R(a[0])
        if op == "fn":
            return FN[a[0]](*[R(x) for x in a[1:]])
        if op == "ind":
            return float(self.cond(a[0], env))
        if op == "ite":
            return R(a[1]) if self.cond(a[0], env) else R(a[2])
        if op == "delta":
            return float(self.index(a[0], env) == self.index(a[1], env))
        if op == "mask":
            return float(self.position(a[0], [self.index(i, env) for i in a[1:]])[0])
        if op in ("sum", "maxo", "mino"):
            vs = [self.real(a[1], {**env, a[0]: k}) for k in self.range(a[0].args[0])]
            return float(sum(vs)) if op == "sum" else max(vs) if op == "maxo" else min(vs)
        if op == "maxmask":
            return max(R(v) for m, v in zip(a[0::2], a[1::2]) if R(m) == 1)
        raise KeyError(op)

    def cond(self, c, env):
        op, a = c.op, c.args
        if op in ("true", "false"):
            return op == "true"
        if op == "ge":
            return self.real(a[0], env) >= self.real(a[1], env)
        if op == "gt":
            return self.real(a[0], env) > self.real(a[1], env)
        if op == "eq":
            return self.real(a[0], env) == self.real(a[1], env)
        if op == "not":
            return not self.cond(a[0], env)
        if op == "and":
            return all(self.cond(x, env) for x in a)
        if op == "or":
            return any(self.cond(x, env) for x in a)
        if op == "ieq":
            return self.index(a[0], env) == self.index(a[1], env)
        raise KeyError(op)
