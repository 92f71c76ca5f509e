"""Terms of the contract logic: real-valued scalar terms over symbolic indices.

Everything is interned (hash-consed) so that syntactic equality is identity.
Index terms are interned as well.  A bound index variable is numbered by the
nesting level of its binder, so alpha-equivalent terms are the same object.
"""
from fractions import Fraction
import itertools

_intern = {}


class Node:
    __slots__ = ("op", "args", "id", "fv", "lev", "hsum")
    _n = itertools.count()

    def __repr__(self):
        return pp(self)

    def __lt__(self, o):
        return self.id < o.id


def _mk(op, args, fv, lev, hsum=False):
    key = (op, args)
    n = _intern.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.id = next(Node._n)
        n.fv = fv
        n.lev = lev
        n.hsum = hsum
        _intern[key] = n
    return n


EMPTY = frozenset()


def _info(args):
    fv = EMPTY
    lev = 0
    hs = False
    for a in args:
        if isinstance(a, Node):
            if a.fv:
                fv = fv | a.fv if fv else a.fv
            if a.lev > lev:
                lev = a.lev
            hs = hs or a.hsum
        elif isinstance(a, tuple):
            f2, l2, h2 = _info(a)
            fv = fv | f2
            lev = max(lev, l2)
            hs = hs or h2
    return fv, lev, hs


def mk(op, *args):
    fv, lev, hs = _info(args)
    return _mk(op, args, fv, lev, hs)


# ---------------------------------------------------------------- indices
_ivar_count = itertools.count()


def ivar(atom, name=None):
    """fresh free index variable ranging over `atom`"""
    n = next(_ivar_count)
    key = ("iv", (n,))
    node = Node()
    node.op = "iv"
    node.args = (n, name or "i", atom)
    node.id = next(Node._n)
    node.fv = frozenset([node])
    node.lev = 0
    node.hsum = False
    _intern[("iv", n)] = node
    return node


def bvar(atom, level, slot=0):
    key = ("bv", (atom, level, slot))
    n = _intern.get(key)
    if n is None:
        n = Node()
        n.op = "bv"
        n.args = (atom, level, slot)
        n.id = next(Node._n)
        n.fv = frozenset([n])
        n.lev = level
        n.hsum = False
        _intern[key] = n
    return n


def iconst(k):
    return mk("ic", int(k))


def ipack(parts):
    """index into a composite atom, as the ordered tuple of its component indices"""
    flat = []
    for p in parts:
        if p.op == "pack":
            flat.extend(p.args)
        else:
            flat.append(p)
    if len(flat) == 1:
        return flat[0]
    return mk("pack", *flat)


def ifun(name, *args):
    """uninterpreted index valued function (position maps of convolutions)"""
    return mk("if", name, *args)


def iinj(tag, *sub):
    """index into a disjoint-sum dimension (concatenation)"""
    return mk("inj", tag, *sub)


# ---------------------------------------------------------------- reals
def const(v):
    if isinstance(v, Fraction):
        return mk("c", v)
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return mk("c", Fraction(v))
    f = float(v)
    if f == float("inf"):
        return mk("app", "+oo")
    if f == float("-inf"):
        return mul(const(-1), mk("app", "+oo"))
    if abs(f) <= 1e-300:
        return mk("c", Fraction(0))
    # the quotient of small integers it rounds (1/3 computed by Python), else its shortest decimal
    q = Fraction(f).limit_denominator(1000)
    return mk("c", q if float(q) == f else Fraction(repr(f)))


ZERO = const(0)
ONE = const(1)
MONE = const(-1)
TRUE = mk("true")
FALSE = mk("false")


def app(name, *idx):
    return mk("app", name, *idx)


def add(*ts):
    out = []
    c = Fraction(0)
    for t in ts:
        if t.op == "c":
            c += t.args[0]
        elif t.op == "+":
            for s in t.args:
                if s.op == "c":
                    c += s.args[0]
                else:
                    out.append(s)
        else:
            out.append(t)
    if not out:
        return const(c)
    # collect like terms
    coef = {}
    for t in out:
        k, r = _coef(t)
        coef[r] = coef.get(r, 0) + k
    out = [scale(k, r) for r, k in coef.items() if k != 0]
    if c != 0:
        out.append(const(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return mk("+", *out)


def _coef(t):
    if t.op == "*" and t.args[0].op == "c":
        rest = t.args[1:]
        return t.args[0].args[0], (rest[0] if len(rest) == 1 else mk("*", *rest))
    return Fraction(1), t


def scale(k, r):
    if k == 1:
        return r
    return mul(const(k), r)


def mul(*ts):
    c = Fraction(1)
    out = []
    for t in ts:
        if t.op == "c":
            c *= t.args[0]
        elif t.op == "*":
            for s in t.args:
                if s.op == "c":
                    c *= s.args[0]
                else:
                    out.append(s)
        else:
            out.append(t)
    if c == 0:
        return ZERO
    if not out:
        return const(c)
    # delta(i,j)^2 = delta(i,j)
    seen = set()
    o2 = []
    for t in out:
        if t.op == "delta" or t.op == "mask" or t.op == "ind":
            if t in seen:
                continue
            seen.add(t)
        o2.append(t)
    out = o2
    out.sort(key=lambda n: n.id)
    if c != 1:
        out.insert(0, const(c))
    if len(out) == 1:
        return out[0]
    return mk("*", *out)


def neg(t):
    if t.op == "+":
        return add(*[mul(MONE, s) for s in t.args])
    return mul(MONE, t)


def sub(a, b):
    return add(a, neg(b))


def tmax(a, b):
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return a if a.args[0] >= b.args[0] else b
    if b.id < a.id:
        a, b = b, a
    return mk("max", a, b)


def tmin(a, b):
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return a if a.args[0] <= b.args[0] else b
    if b.id < a.id:
        a, b = b, a
    return mk("min", a, b)


def tabs(a):
    if a.op == "c":
        return const(abs(a.args[0]))
    return mk("abs", a)


def sign(a):
    if a.op == "c":
        v = a.args[0]
        return const((v > 0) - (v < 0))
    return mk("sign", a)


def recip(a):
    if a.op == "c" and a.args[0] != 0:
        return const(1 / a.args[0])
    if a.op == "recip":
        return a.args[0]
    if a.op == "*" and a.args[0].op == "c":
        k, r = _coef(a)
        return mul(const(1 / k), recip(r))
    return mk("recip", a)


def fn(name, *args):
    return mk("fn", name, *args)


def ge(a, b):
    if a is b:
        return TRUE
    d = sub(a, b)
    if d.op == "c":
        return TRUE if d.args[0] >= 0 else FALSE
    return mk("ge", a, b)


def gt(a, b):
    return lnot(ge(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    d = sub(a, b)
    if d.op == "c":
        return TRUE if d.args[0] == 0 else FALSE
    if b.id < a.id:
        a, b = b, a
    return mk("eq", a, b)


def lnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", c)


def land(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def lor(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is ONE and b is ZERO:
        return ind(c)
    if a is ZERO and b is ONE:
        return sub(ONE, ind(c))
    return mk("ite", c, a, b)


def ind(c):
    """indicator of a condition, 0/1 valued"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    return mk("ind", c)


def ieq(i, j):
    """index equality as a condition"""
    d = delta(i, j)
    if d is ONE:
        return TRUE
    if d is ZERO:
        return FALSE
    if d.op == "delta":
        return mk("ieq", *d.args)
    return land(*[mk("ieq", *f.args) for f in d.args])


def delta(i, j):
    if i is j:
        return ONE
    if i.op == "ic" and j.op == "ic":
        return ZERO
    if i.op == "pack" and j.op == "pack":
        if len(i.args) == len(j.args):
            return mul(*[delta(a, b) for a, b in zip(i.args, j.args)])
    if i.op == "inj" and j.op == "inj":
        if i.args[0] != j.args[0]:
            return ZERO
        if len(i.args) == len(j.args):
            return mul(ONE, *[delta(a, b) for a, b in zip(i.args[1:], j.args[1:])])
    if j.id < i.id:
        i, j = j, i
    return mk("delta", i, j)


def mask(name, *idx):
    """uninterpreted 0/1 valued function of indices"""
    return mk("mask", name, *idx)


# binders ------------------------------------------------------------
def _bind(op, var, body):
    """close `var` (free ivar) in body"""
    lev = body.lev + 1
    b = bvar(var.args[2], lev)
    body2 = subst(body, {var: b})
    fv = body2.fv - {b}
    return _mk(op, (b, body2), fv, lev, True)


def tsum(var, body):
    if body is ZERO:
        return ZERO
    if var not in body.fv:
        return mul(card(var.args[2]), body)
    return _bind("sum", var, body)


def maxo(var, body):
    if var not in body.fv:
        return body
    return _bind("maxo", var, body)


def mino(var, body):
    if var not in body.fv:
        return body
    return _bind("mino", var, body)


def iarg(kind, var, body):
    """first index attaining the max ('argmax') / min over `var`"""
    lev = body.lev + 1
    b = bvar(var.args[2], lev)
    body2 = subst(body, {var: b})
    fv = body2.fv - {b}
    return _mk("iarg", (kind, b, body2), fv, lev, True)


def card(atom):
    n = atom.concrete
    if n is not None:
        return const(n)
    return app("#" + atom.name)


def open_binder(t, idx):
    """body of a sum/maxo/mino at index idx"""
    b, body = t.args
    return subst(body, {b: idx})


# ---------------------------------------------------------------- subst
_subst_memo = {}


def subst(t, m):
    """substitute index variables.  m: {ivar|bvar: index}"""
    if not m:
        return t
    memo = {}

    def go(t):
        if t.fv.isdisjoint(m.keys()):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op in ("iv", "bv"):
            r = m.get(t, t)
        elif op in ("sum", "maxo", "mino"):
            b, body = t.args
            v = ivar(b.args[0])
            nb = go2(subst(body, {b: v}))
            r = {"sum": tsum, "maxo": maxo, "mino": mino}[op](v, nb)
        elif op == "iarg":
            k, b, body = t.args
            v = ivar(b.args[0])
            nb = go2(subst(body, {b: v}))
            r = iarg(k, v, nb)
        else:
            r = rebuild(op, [go(a) if isinstance(a, Node) else a for a in t.args])
        memo[t] = r
        return r

    def go2(t):
        return subst(t, m)

    return go(t)


def rebuild(op, a):
    if op == "+":
        return add(*a)
    if op == "*":
        return mul(*a)
    if op == "max":
        return tmax(*a)
    if op == "min":
        return tmin(*a)
    if op == "abs":
        return tabs(*a)
    if op == "sign":
        return sign(*a)
    if op == "recip":
        return recip(*a)
    if op == "ge":
        return ge(*a)
    if op == "eq":
        return eq(*a)
    if op == "not":
        return lnot(*a)
    if op == "and":
        return land(*a)
    if op == "or":
        return lor(*a)
    if op == "ite":
        return ite(*a)
    if op == "ind":
        return ind(*a)
    if op == "delta":
        return delta(*a)
    if op == "ieq":
        return ieq(*a)
    if op == "pack":
        return ipack(a)
    if op == "app":
        return app_hook(a[0], *a[1:])
    return mk(op, *a)


_app_hooks = {}


def app_hook(name, *idx):
    return app(name, *idx)


def map_terms(t, f, memo=None):
    """bottom-up rewriting f on real/cond nodes (binders opened and closed)"""
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op in ("iv", "bv", "ic"):
            r = t
        elif op in ("sum", "maxo", "mino"):
            b, body = t.args
            v = ivar(b.args[0])
            nb = map_terms(subst(body, {b: v}), f)
            r = f({"sum": tsum, "maxo": maxo, "mino": mino}[op](v, nb))
        elif op == "iarg":
            r = t
        else:
            r = f(rebuild(op, [go(a) if isinstance(a, Node) else a for a in t.args]))
        memo[t] = r
        return r

    return go(t)


def walk(t, seen=None):
    """all subnodes, not entering binders' bodies' bound instances twice"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        yield n
        for a in n.args:
            if isinstance(a, Node):
                st.append(a)


# ---------------------------------------------------------------- printing
def pp(t, depth=0):
    op = t.op
    a = t.args
    if depth > 12:
        return "..."
    r = lambda x: pp(x, depth + 1) if isinstance(x, Node) else str(x)
    if op == "c":
        return str(a[0])
    if op == "iv":
        return f"{a[1]}{a[0]}"
    if op == "bv":
        return f"_{a[0].name or a[0].size}.{a[1]}"
    if op == "ic":
        return str(a[0])
    if op in ("app", "mask", "if", "fn"):
        if len(a) == 1:
            return str(a[0])
        return f"{a[0]}[{','.join(r(x) for x in a[1:])}]" if op != "fn" else f"{a[0]}({','.join(r(x) for x in a[1:])})"
    if op == "+":
        return "(" + " + ".join(r(x) for x in a) + ")"
    if op == "*":
        return "*".join(r(x) for x in a)
    if op == "sum":
        return f"SUM_{r(a[0])}({r(a[1])})"
    if op in ("maxo", "mino"):
        return f"{op.upper()}_{r(a[0])}({r(a[1])})"
    if op == "ge":
        return f"({r(a[0])} >= {r(a[1])})"
    if op == "eq":
        return f"({r(a[0])} == {r(a[1])})"
    return f"{op}({','.join(r(x) for x in a)})"
