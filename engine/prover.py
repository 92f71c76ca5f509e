"""Discharging obligations: normal form of sums, pointwise monotonicity of sums, leaf queries to z3 / cvc5."""
import itertools
import os
import time
from fractions import Fraction

import z3

from . import terms as T
from .terms import Node

STATS = {"leaf": 0, "z3_s": 0.0, "cvc5": 0, "syntactic": 0, "sum_rule": 0, "split": 0, "cvc5_s": 0.0}


# ------------------------------------------------------------------ normal form
class Canon:
    """polynomial normal form modulo linearity of sums, Fubini, delta elimination"""

    def __init__(self, full=False):
        self.full = full
        self.memo = {}
        self.cmemo = {}

    def poly(self, t, opened=frozenset()):
        key = (t, opened & t.fv if t.fv else frozenset())
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._poly(t, key[1])
        return r

    def _poly(self, t, opened):
        op = t.op
        if op == "c":
            return {(): t.args[0]} if t.args[0] != 0 else {}
        if op == "+":
            out = {}
            for a in t.args:
                for m, c in self.poly(a, opened).items():
                    _acc(out, m, c)
            return out
        if op == "*":
            ps = []
            for a in t.args:
                ps.append(self.poly(a, opened))
            out = {(): Fraction(1)}
            for p in ps:
                nxt = {}
                for m1, c1 in out.items():
                    for m2, c2 in p.items():
                        m = mono_mul(m1, m2)
                        if m is not None:
                            _acc(nxt, m, c1 * c2)
                out = nxt
                if len(out) > 20000:
                    raise TooBig()
            return out
        if op == "ite":
            c, a, b = t.args
            if c.op == "ieq" or (opened and c.fv.isdisjoint(opened)) or (self.full):
                i = self.cind(c)
                return self.poly(T.add(T.mul(i, a), T.mul(T.sub(T.ONE, i), b)), opened)
        if op == "ind":
            i = self.cind(t.args[0])
            if i is not t:
                return self.poly(i, opened)
        if op == "sum":
            b, body = t.args
            v = T.ivar(b.args[0])
            p = self.poly(T.subst(body, {b: v}), opened | {v})
            out = {}
            for m, c in p.items():
                for m2, c2 in self.close(v, m).items():
                    _acc(out, m2, c * c2)
            return out
        n = self.canon_atom(t)
        if n.op in ("+", "*", "c"):
            return self.poly(n, opened)
        return {(n,): Fraction(1)}

    def cind(self, c):
        if c.op == "ieq":
            return T.delta(*c.args)
        if c.op == "and":
            return T.mul(*[self.cind(a) for a in c.args])
        if c.op == "not":
            return T.sub(T.ONE, self.cind(c.args[0]))
        return T.ind(self.canon_cond(c))

    def close(self, v, m):
        """sum over v of the monomial m (tuple of factors) as a poly"""
        # delta elimination
        for k, f in enumerate(m):
            if f.op == "delta":
                i, j = f.args
                if i is v and v not in j.fv:
                    tgt = j
                elif j is v and v not in i.fv:
                    tgt = i
                else:
                    continue
                rest = m[:k] + m[k + 1 :]
                return self.poly(T.subst(T.mul(*rest) if rest else T.ONE, {v: tgt}))
        dep, ind = [], []
        for f in m:
            (dep if v in f.fv else ind).append(f)
        if not dep:
            return {tuple(sorted(ind + [T.card(v.args[2])])) if T.card(v.args[2]).op != "c" else tuple(sorted(ind)): T.card(v.args[2]).args[0] if T.card(v.args[2]).op == "c" else Fraction(1)}
        # merge inner sums
        vs = [v]
        fs = []
        for f in dep:
            if f.op == "sum":
                cur = f
                while cur.op == "sum":
                    b, body = cur.args
                    w = T.ivar(b.args[0])
                    vs.append(w)
                    cur = T.subst(body, {b: w})
                fs.extend(cur.args if cur.op == "*" else [cur])
            else:
                fs.append(f)
        node = close_canonical(vs, fs)
        return {tuple(sorted(ind + [node])): Fraction(1)}

    def canon_atom(self, t):
        r = self.cmemo.get(t)
        if r is not None:
            return r
        op = t.op
        if op in ("max", "min"):
            r = self._pull(op, [self.poly(a) for a in t.args])
        elif op in ("abs", "sign"):
            r = self._pull(op, [self.poly(t.args[0])])
        elif op == "recip":
            r = T.rebuild(op, [self.canon(t.args[0])])
        elif op == "fn":
            r = T.fn(t.args[0], *[self.canon(a) for a in t.args[1:]])
        elif op == "ite":
            r = T.ite(self.canon_cond(t.args[0]), self.canon(t.args[1]), self.canon(t.args[2]))
        elif op == "ind":
            r = T.ind(self.canon_cond(t.args[0]))
        elif op in ("maxo", "mino"):
            b, body = t.args
            v = T.ivar(b.args[0])
            nb = self.canon(T.subst(body, {b: v}), frozenset([v]))
            r = (T.maxo if op == "maxo" else T.mino)(v, nb)
        elif op in ("maxmask",):
            r = T.mk(op, *[self.canon(a) for a in t.args])
        else:
            r = t
        self.cmemo[t] = r
        return r

    def _pull(self, op, ps):
        """op(I*a, I*b, ..) = I*op(a, b, ..) for a 0/1 factor I common to every monomial (op(0,..,0) = 0)"""
        common = None
        for p in ps:
            for m in p:
                fs = {f for f in m if f.op in IDEMP}
                common = fs if common is None else common & fs
        if not common:
            return T.rebuild(op, [self.to_term(p) for p in ps])
        rest = [{tuple(f for f in m if f not in common): c for m, c in p.items()} for p in ps]
        return T.mul(*sorted(common), T.rebuild(op, [self.to_term(p) for p in rest]))

    def canon(self, t, opened=frozenset()):
        if t.op in ("c", "app", "iv", "bv", "ic", "delta", "mask"):
            return t
        return self.to_term(self.poly(t, opened))

    def to_term(self, p):
        return T.add(*[T.mul(T.const(c), *m) for m, c in p.items()]) if p else T.ZERO

    def canon_cond(self, c):
        op = c.op
        if op in ("true", "false", "ieq"):
            return c
        if op in ("and", "or", "not"):
            return T.rebuild(op, [self.canon_cond(a) for a in c.args])
        if op in ("ge", "eq"):
            a, b = c.args
            # keep sides apart (readable), normalised
            return T.rebuild(op, [self.canon(a), self.canon(b)])
        if op == "ind":
            return c
        raise ValueError(f"condition {op}")


class TooBig(Exception):
    pass


def _acc(d, m, c):
    v = d.get(m, 0) + c
    if v == 0:
        d.pop(m, None)
    else:
        d[m] = v


IDEMP = ("delta", "mask", "ind")


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = sorted(a + b)
    res = []
    for f in out:
        if res and res[-1] is f and f.op in IDEMP:
            continue
        # x * 1/x is *not* simplified (x could be 0)
        res.append(f)
    return tuple(res)


def close_canonical(vs, fs):
    """nested sum over vs of the product of fs, with a canonical nesting order"""
    body = T.mul(*fs)
    best = None
    if len(vs) <= 4:
        perms = itertools.permutations(vs)
    else:
        perms = [vs]
    for p in perms:
        t = body
        for v in p:
            t = T._bind("sum", v, t)
        if best is None or t.id < best.id:
            best = t
    return best


# ------------------------------------------------------------------ hypotheses
def _flat_ext(op, t):
    return [u for a in t.args for u in _flat_ext(op, a)] if t.op == op else [t]


def positive(f):
    """sizes of dimensions are at least one"""
    c = f.args[0] if f.op == "recip" else f
    return c.op == "app" and c.args[0].startswith("#") and len(c.args) == 1 and c.args[0] != "#idx"


class Hyp:
    def __init__(self, name, build, trig=None, elim=False):
        self.name = name
        self.elim = elim
        self.build = build
        self.trig = trig if trig is None or isinstance(trig, (tuple, list, set)) else (trig,)

    @staticmethod
    def ground(name, cond):
        return Hyp(name, lambda: cond)


class Result:
    def __init__(self, status, how="", detail=None, model=None):
        self.status = status  # proved | refuted | unknown
        self.how = how
        self.detail = detail
        self.model = model

    @property
    def ok(self):
        return self.status == "proved"

    def __repr__(self):
        return f"<{self.status} {self.how}>"


def free_apps(t):
    for n in T.walk(t):
        yield n


def _shape_of(i):
    """an index up to the names of its variables"""
    if i.op in ("iv", "bv"):
        return "*"
    if i.op == "ic":
        return i.args[0]
    return (i.op,) + tuple(_shape_of(a) if isinstance(a, Node) else a for a in i.args)


def has_bound(n):
    for v in n.fv:
        if v.op == "bv":
            return True
    return False


class Prover:
    def __init__(self, hyps=(), timeout=10.0, axioms=None, max_rounds=3):
        self.hyps = list(hyps)
        self.timeout = timeout
        self.canon = Canon()
        self.axioms = axioms or []
        self.max_rounds = max_rounds
        self.witness = {}
        self.choose = None
        self.last_fail = None
        self.deadline = None

    # ---- entry
    def prove(self, goal, extra=(), hints=()):
        extra = list(extra)
        for k, h in enumerate(hints):
            if isinstance(h, Hyp):
                self.hyps.append(h)
                continue
            r = self.prove(h, extra)
            if not r.ok:
                return Result(r.status, "hint %d failed: " % k + r.how, r.detail, r.model)
            extra.append(h)
        return self._goal(goal, extra, 0)

    def _goal(self, g, extra, depth):
        if g is T.TRUE:
            STATS["syntactic"] += 1
            return Result("proved", "trivial")
        if g.op == "and":
            for a in g.args:
                r = self._goal(a, extra, depth)
                if not r.ok:
                    return r
            return Result("proved", "conj")
        if g.op == "or":
            nots = [a for a in g.args if a.op == "not"]
            pos = [a for a in g.args if a.op != "not"]
            if nots and pos:
                return self._goal(T.lor(*pos), extra + [a.args[0] for a in nots], depth)
        if g.op == "ge":
            a, b = g.args
            many = _flat_ext("max", b) if b.op == "max" else _flat_ext("min", a) if a.op == "min" else ()
            if len(many) > 4 and not self.choose:
                if all(self._goal(T.ge(a, x) if b.op == "max" else T.ge(x, b), extra, depth).ok for x in many):
                    return Result("proved", "each entry of the extremum")
            if self.choose:
                r = self._descend(a, b, extra, depth)
                if r is not None:
                    return r
            return self._ineq(T.sub(a, b), extra, depth)
        if g.op == "eq":
            return self._equal(*g.args, extra, depth)
        return self._leaf_split(g, extra, depth)

    def _equal(self, a, b, extra, depth):
        d = T.sub(a, b)
        try:
            p = Canon(full=True).poly(d)
        except TooBig:
            p = None
        if p is not None and not p:
            STATS["syntactic"] += 1
            return Result("proved", "normal form")
        sp = self._try_splits(T.eq(a, b), extra, depth)
        if sp is not None:
            return sp
        if p is not None and any(f.op == "sum" for m in p for f in m):
            # pointwise equality under the sums
            for body, rest in self._groupings(Canon(full=True).to_term(p), full=True):
                if depth < 4 and self._equal(body, T.ZERO, extra, depth + 1).ok and self._equal(rest, T.ZERO, extra, depth + 1).ok:
                    STATS["sum_rule"] += 1
                    return Result("proved", "pointwise equality")
        if p is not None and len(p) > 4 and self._modulo(d, extra):
            STATS["syntactic"] += 1
            return Result("proved", "normal form modulo equations")
        return self._leaf(T.eq(a, b), extra)

    def _modulo(self, d, extra):
        """d == 0 by the equations `atom == term` among the hypotheses, and min(a, b) == a + b - max(a, b)"""
        eqs = {}
        self._ext, self._idx = {}, {}
        for h in list(extra) + self.instances(T.eq(d, T.ZERO), list(extra)):
            for c in h.args if h.op == "and" else (h,):
                if c.op == "eq":
                    a, b = c.args if c.args[0].op == "app" else c.args[::-1]
                    if a.op == "app" and a not in eqs and not any(n is a or n in eqs for n in T.walk(b)):
                        eqs[a] = b

        def f(n):
            if n.op == "min" and len(n.args) == 2:
                x, y = n.args
                return T.sub(T.add(x, y), T.tmax(x, y))
            return eqs.get(n, n)

        try:
            return not Canon(full=True).poly(T.map_terms(T.map_terms(d, f), f))
        except TooBig:
            return False

    def _ineq(self, t, extra, depth):
        """t >= 0"""
        try:
            p = self.canon.poly(t)
        except TooBig:
            return Result("unknown", "too big")
        if not p:
            STATS["syntactic"] += 1
            return Result("proved", "normal form")
        common = None
        for m in p:
            fs = {f for f in m if f.op in IDEMP}
            common = fs if common is None else common & fs
            if not common:
                break
        if common:
            p = {tuple(f for f in m if f not in common): c for m, c in p.items()}
        # a positive factor common to every monomial: a number of indices, or its inverse
        pos = None
        for m in p:
            fs = {f for f in m if positive(f)}
            pos = fs if pos is None else pos & fs
            if not pos:
                break
        for f in pos or ():
            p = {m[: m.index(f)] + m[m.index(f) + 1 :]: c for m, c in p.items()}
        t = self.canon.to_term(p)
        goal = T.ge(t, T.ZERO)
        if goal is T.TRUE:
            return Result("proved", "const")
        if len(p) > 9 and depth < 6 :
            parts = self._separate(p)
            if parts:
                for q in parts:
                    r = self._ineq(self.canon.to_term(q), extra, depth + 1)
                    if not r.ok:
                        break
                else:
                    STATS["separated"] = STATS.get("separated", 0) + 1
                    return Result("proved", "separable")
        sp = self._try_splits(goal, extra, depth)
        if sp is not None:
            return sp
        sums = any(f.op == "sum" for m in p for f in m)
        r = self._leaf(goal, extra, quick=sums)
        if r.ok:
            return r
        if depth < 5:
            t2 = self._eliminate(p, extra)
            if t2 is not None:
                r2 = self._ineq(t2, extra, depth + 1)
                if r2.ok:
                    return r2
        if depth < 5:
            x = self._extremum(p, extra, depth)
            if x is not None and x.ok:
                return x
        if not sums or depth > 4:
            return r
        for body, rest in self._groupings(t):
            r1 = self._ineq(body, extra, depth + 1)
            if not r1.ok:
                r_last = r1
                continue
            r2 = self._ineq(rest, extra, depth + 1) if rest is not T.ZERO else Result("proved", "")
            if r2.ok:
                STATS["sum_rule"] += 1
                return Result("proved", "pointwise under a sum")
        if depth == 0 and r.status == "unknown":
            return self._leaf(goal, extra)
        return r

    def _descend(self, a, b, extra, depth):
        """min(x, y) >= b if both are; max_i f(i) >= b if f(w) >= b for the w chosen by the contract, before any expansion"""
        again = lambda x: self._goal(T.ge(x, b), extra, depth)
        if a.op == "min":
            for x in _flat_ext("min", a):
                r = again(x)
                if not r.ok:
                    return r
            return r
        if a.op == "max":
            x = self.choose(a)
            if x is not None and x in _flat_ext("max", a):
                STATS["extremum"] = STATS.get("extremum", 0) + 1
                return again(x)
        if a.op == "maxo":
            w = self.choose(a)
            if w is not None:
                STATS["extremum"] = STATS.get("extremum", 0) + 1
                return again(T.subst(a.args[1], {a.args[0]: w}))
        return None

    def _extremum(self, p, extra, depth):
        """min(a, b) + r >= 0 iff a + r >= 0 and b + r >= 0; the same for max with a negative coefficient, and for extrema over an axis"""
        for m, c in p.items():
            if len(m) != 1 or has_bound(m[0]):
                continue
            f = m[0]
            some = False
            if f.op in ("min", "max"):
                cand = _flat_ext(f.op, f)
                some = (f.op, c > 0) in (("max", True), ("min", False))
            elif (f.op, c > 0) in (("mino", True), ("maxo", False)):
                b, body = f.args
                cand = [T.subst(body, {b: T.ivar(b.args[0])})]
            else:
                continue
            rest = self.canon.to_term({k: v for k, v in p.items() if k is not m})
            r = None
            for a in cand:
                r = self._ineq(T.add(T.mul(T.const(c), a), rest), extra, depth + 1)
                if r.ok == some:
                    break
            if not r.ok:
                continue
            STATS["extremum"] = STATS.get("extremum", 0) + 1
            return Result("proved", "extremum")
        return None

    def _separate(self, p):
        """split the monomials into groups that share no atom (the most widespread atoms are disregarded)"""
        ms = []
        for m, c in p.items():
            s = set()
            for f in m:
                for n in T.walk(f):
                    if n.op == "app":
                        s.add((n.args[0],) + tuple(_shape_of(i) for i in n.args[1:]))
            ms.append((m, c, s))
        banned = set()
        for _ in range(8):
            parent = list(range(len(ms)))

            def find(x):
                while parent[x] != x:
                    parent[x] = parent[parent[x]]
                    x = parent[x]
                return x

            owner = {}
            count = {}
            for k, (m, c, s) in enumerate(ms):
                for a in s - banned:
                    count[a] = count.get(a, 0) + 1
                    if a in owner:
                        parent[find(k)] = find(owner[a])
                    else:
                        owner[a] = k
            groups = {}
            for k in range(len(ms)):
                groups.setdefault(find(k), []).append(k)
            if len(groups) > 1:
                if max(len(g) for g in groups.values()) > len(ms) * 0.7 and len(ms) > 14:
                    pass
                else:
                    return [{ms[k][0]: ms[k][1] for k in g} for g in groups.values()]
            if not count:
                return None
            top = max(count.values())
            if top < 4:
                return None
            banned |= {a for a, n in count.items() if n == top}
        return None

    def _eliminate(self, p, extra):
        """replace atoms bounded by a contract (hypotheses marked elim) by their bound, in the sound direction"""
        hs = [h for h in self.hyps if h.elim]
        if not hs:
            return None
        out = []
        done = False
        for m, c in p.items():
            hit = None
            if len(m) == 1 and m[0].op == "app" and not has_bound(m[0]):
                a = m[0]
                for h in hs:
                    if a.args[0] in h.trig:
                        conds = h.build(*a.args[1:])
                        for cc in conds if isinstance(conds, (list, tuple)) else [conds]:
                            if cc.op != "ge":
                                continue
                            if c > 0 and cc.args[0] is a:
                                hit = cc.args[1]
                            if c < 0 and cc.args[1] is a:
                                hit = cc.args[0]
            if hit is not None:
                done = True
                out.append(T.mul(T.const(c), hit))
            else:
                out.append(T.mul(T.const(c), *m))
        return T.add(*out) if done else None

    def _groupings(self, t, full=False):
        can = Canon(full=True) if full else self.canon
        p = can.poly(t)
        monos = []
        atoms = []
        for m, c in p.items():
            info = []
            for k, f in enumerate(m):
                if f.op == "sum":
                    vs = []
                    cur = f
                    while cur.op == "sum":
                        b, body = cur.args
                        vs.append(b.args[0])
                        cur = body
                    info.append((k, vs))
                    for a in vs:
                        if a not in atoms:
                            atoms.append(a)
            monos.append((m, c, info))
        # dimensions shared by more monomials first
        def score(a):
            return -sum(1 for _, _, info in monos if any(a in vs for _, vs in info))

        atoms.sort(key=score)
        for D in atoms:
            for slot in (0, 1):
                sk = T.ivar(D, D.name)
                body = []
                rest = []
                used_slot = False
                for m, c, info in monos:
                    hit = None
                    for k, vs in info:
                        n = vs.count(D)
                        if n:
                            hit = (k, min(slot, n - 1))
                            used_slot = used_slot or n > 1
                            break
                    if hit is None:
                        rest.append(T.mul(T.const(c), *m))
                        continue
                    k, s = hit
                    cur = m[k]
                    vs = []
                    while cur.op == "sum":
                        b, bd = cur.args
                        w = T.ivar(b.args[0], b.args[0].name)
                        vs.append(w)
                        cur = T.subst(bd, {b: w})
                    cand = [w for w in vs if w.args[2] is D]
                    pick = cand[s]
                    for w in vs:
                        if w is not pick:
                            cur = T.tsum(w, cur)
                    cur = T.subst(cur, {pick: sk})
                    body.append(T.mul(T.const(c), *(m[:k] + m[k + 1 :]), cur))
                yield T.add(*body), T.add(*rest) if rest else T.ZERO
                if not used_slot:
                    break

    # ---- index equality splits
    def _find_split(self, goal, extra):
        for t in [goal] + list(extra):
            for n in T.walk(t):
                if n.op in ("delta", "ieq") and not has_bound(n):
                    i, j = n.args
                    if i.op == "iv" and i not in j.fv:
                        return n, i, j
                    if j.op == "iv" and j not in i.fv:
                        return n, j, i
        return None

    def _try_splits(self, goal, extra, depth):
        s = self._find_split(goal, extra)
        if s is None:
            return None
        n, i, j = s
        STATS["split"] += 1
        # case equal
        g1 = T.subst(goal, {i: j})
        e1 = [T.subst(e, {i: j}) for e in extra]
        r = self._goal(g1, e1, depth)
        if not r.ok:
            return Result(r.status, f"case {i}=={j}: " + r.how, r.detail, r.model)
        a, b = n.args

        def off(x):
            if x.op in ("delta", "ieq") and set(x.args) == {a, b}:
                return T.ZERO if x.op == "delta" else T.FALSE
            return x

        g2 = T.map_terms(goal, off)
        e2 = [T.map_terms(e, off) for e in extra]
        r = self._goal(g2, e2, depth)
        if not r.ok:
            return Result(r.status, f"case {i}!={j}: " + r.how, r.detail, r.model)
        return Result("proved", "index split")

    def _leaf_split(self, goal, extra, depth):
        sp = self._try_splits(goal, extra, depth)
        if sp is not None:
            return sp
        return self._leaf(goal, extra)

    # ---- leaf
    def instances(self, goal, extra):
        """ground instances of the hypotheses relevant to the goal"""
        out = []
        done = set()
        seen = set()
        todo = [goal] + list(extra)
        for h in self.hyps:
            if h.trig is None and ("g", id(h)) not in done:
                done.add(("g", id(h)))
                c = self.canon.canon_cond(h.build())
                out.append(c)
                todo.append(c)
        for rnd in range(self.max_rounds):
            new = []
            idxs = {}
            exts = []
            for t in todo:
                for n in T.walk(t, seen):
                    if n.op in ("app", "mask") and not has_bound(n):
                        for h in self.hyps:
                            if h.trig is not None and n.args[0] in h.trig:
                                key = (id(h), n.args[1:])
                                if key not in done:
                                    done.add(key)
                                    c = h.build(*n.args[1:])
                                    if c is None:
                                        continue
                                    for cc in c if isinstance(c, (list, tuple)) else [c]:
                                        new.append(self.canon.canon_cond(cc))
                    if n.op in ("maxo", "mino", "iarg") and not has_bound(n):
                        exts.append(n)
            for n in exts:
                self._ext.setdefault(n, set())
            # extremum facts
            for t in list(todo) + new:
                for n in T.walk(t):
                    if n.op == "iarg" and not has_bound(n):
                        self._idx.setdefault(n.args[1].args[0], set()).add(n)
                    if n.op == "iv":
                        self._idx.setdefault(n.args[2], set()).add(n)
            for n in list(self._ext):
                b = n.args[0] if n.op != "iarg" else n.args[1]
                body = n.args[1] if n.op != "iarg" else n.args[2]
                D = b.args[0]
                kind = n.op if n.op != "iarg" else {"argmax": "maxo", "argmin": "mino"}[n.args[0]]
                if n.op == "iarg":
                    w = n
                    val = T.subst(body, {b: w})
                else:
                    w = self.witness.get(n)
                    if w is None:
                        w = self.witness[n] = T.ivar(D, "wit")
                    val = n
                    if "w" not in self._ext[n]:
                        self._ext[n].add("w")
                        new.append(self.canon.canon_cond(T.eq(n, T.subst(body, {b: w}))))
                        self._idx.setdefault(D, set()).add(w)
                for i in list(self._idx.get(D, ())):
                    if i in self._ext[n]:
                        continue
                    self._ext[n].add(i)
                    bi = T.subst(body, {b: i})
                    c = T.ge(val, bi) if kind == "maxo" else T.ge(bi, val)
                    new.append(self.canon.canon_cond(c))
            if not new:
                break
            out.extend(new)
            todo = new
        return out

    def _leaf(self, goal, extra, quick=False):
        self._ext = {}
        self._idx = {}
        t0 = time.time()
        goal = self.canon.canon_cond(goal)
        extra = [self.canon.canon_cond(e) for e in extra]
        hy = extra + self.instances(goal, extra)
        # hypotheses may introduce index equalities
        s = self._find_split(T.land(*([goal] + hy)) if hy else goal, [])
        if s is not None:
            n, i, j = s
            if i in goal.fv or True:
                g1 = T.subst(goal, {i: j})
                r = self._leaf(g1, [T.subst(e, {i: j}) for e in extra + hy], quick)
                if not r.ok:
                    return r
                a, b = n.args

                def off(x):
                    if x.op in ("delta", "ieq") and set(x.args) == {a, b}:
                        return T.ZERO if x.op == "delta" else T.FALSE
                    return x

                return self._leaf_ground(T.map_terms(goal, off), [T.map_terms(e, off) for e in hy], quick)
        return self._leaf_ground(goal, hy, quick)

    def _leaf_ground(self, goal, hy, quick):
        STATS["leaf"] += 1
        enc = Encoder()
        g = enc.cond(goal)
        hs = []
        for h in hy:
            try:
                hs.append(enc.cond(h))
            except ValueError:
                pass
        facts = enc.facts
        for ax in self.axioms:
            facts = facts + ax(enc)
        to = self.timeout if not quick else min(self.timeout, 2.0)
        t0 = time.time()
        if quick:
            st, model = solve(hs + facts, g, to)
        else:
            st, model = solve(hs + facts, g, min(to, 3.0), first=True)
            if st == "unknown":
                st2 = self._generalised(goal, hy, hs + facts, enc)
                if st2:
                    STATS["generalised"] = STATS.get("generalised", 0) + 1
                    STATS["z3_s"] += time.time() - t0
                    return Result("proved", st2)
                st, model = solve(hs + facts, g, to)
        STATS["z3_s"] += time.time() - t0
        if st == "unsat":
            return Result("proved", "z3")
        if st == "unsat-cvc5":
            return Result("proved", "cvc5")
        m = None
        if model is not None:
            m = {}
            for n, v in enc.vars.items():
                try:
                    m[T.pp(n)] = str(model.eval(v, model_completion=True))
                except Exception:
                    pass
        return Result(
            "refuted" if st == "sat" else "unknown",
            f"z3:{st}",
            {"goal": T.pp(goal)[:4000], "hyps": [T.pp(h)[:600] for h in hy[:40]]},
            m,
        )

    def _generalised(self, goal, hy, facts, enc):
        """replace each maximum/minimum by an arbitrary value about which only proved comparisons are kept (a weaker premise)"""
        nodes = []

        def find(t):
            if t.op in ("max", "min") and not has_bound(t) and all(a.op == "app" for a in t.args):
                if t not in nodes:
                    nodes.append(t)
                return
            for a in t.args:
                if isinstance(a, Node):
                    find(a)

        find(goal)
        if len(nodes) > 4:
            return None
        m = {n: T.app(f"gen#{n.id}") for n in nodes}
        # S + b, S a sum: one value
        for h in hy:
            for t in T.walk(h):
                if t.op == "+" and len(t.args) == 2:
                    for S, b in (t.args, t.args[::-1]):
                        if S.op == "sum" and b.op == "app" and S not in m and not has_bound(t):
                            m[S] = T.sub(T.app(f"gen#{t.id}"), b)
        if not m:
            return None
        memo = {}

        def rep0(t):
            r = memo.get(t)
            if r is None:
                if t in m:
                    r = m[t]
                elif not any(isinstance(a, Node) for a in t.args):
                    r = t
                else:
                    args = [rep0(a) if isinstance(a, Node) else a for a in t.args]
                    r = T.mk(t.op, *args) if t.op in ("sum", "maxo", "mino", "iarg") else T.rebuild(t.op, args)
                memo[t] = r
            return r



        def rep(t):
            return self.canon.canon_cond(rep0(t))

        g2 = rep(goal)
        apps = lambda t: {x for x in T.walk(t) if x.op == "app"}
        have = apps(g2)
        others = [a for a in have if not a.args[0].startswith('gen#') and not has_bound(a)]
        if len(others) * (len(nodes) + len(others)) > 60:
            return None
        slv = z3.Solver()
        slv.set("timeout", int(700 * SCALE))
        for f in facts:
            slv.add(f)
        keep = []

        def known(c):
            slv.push()
            slv.add(z3.Not(enc.cond(c)))
            r = slv.check()
            slv.pop()
            if r == z3.unsat:
                keep.append(rep(c))

        for k, n in enumerate(nodes):
            known(T.lnot(T.ge(T.ZERO, n)))
            for o in others + nodes[:k]:
                known(T.ge(n, o))
                known(T.ge(o, n))
        for o in others:
            for o2 in others:
                if o is not o2:
                    known(T.ge(o, o2))
        for h in hy:
            h2 = rep(h)
            if apps(h2) <= have:
                keep.append(h2)
        e2 = Encoder()
        g = e2.cond(g2)
        hs = []
        for h in keep:
            try:
                hs.append(e2.cond(h))
            except ValueError:
                pass
        fs = e2.facts
        for ax in self.axioms:
            fs = fs + ax(e2)
        if os.environ.get("GEN_DEBUG"):
            print("GEN", T.pp(g2), [T.pp(h) for h in keep])
        st, _ = solve(hs + fs, g, min(self.timeout, 4.0))
        return {"unsat": "z3", "unsat-cvc5": "cvc5"}.get(st)

    def consistent(self, goal=None):
        """is the set of hypotheses (instantiated on the goal's terms) satisfiable? (vacuity guard)"""
        self._ext = {}
        self._idx = {}
        hy = self.instances(goal if goal is not None else T.TRUE, [])
        enc = Encoder()
        hs = [enc.cond(h) for h in hy]
        facts = enc.facts
        for ax in self.axioms:
            facts = facts + ax(enc)
        s = z3.Solver()
        s.set("timeout", int(self.timeout * 1000 * SCALE))
        for h in hs + facts:
            s.add(h)
        r = s.check()
        return str(r)


class Encoder:
    def __init__(self):
        self.vars = {}
        self.memo = {}
        self.facts = []
        self.fns = {}

    def var(self, n):
        v = self.vars.get(n)
        if v is None:
            v = self.vars[n] = z3.Real(f"{n.op}_{n.id}")
        return v

    def real(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        op = t.op
        a = t.args
        if op == "c":
            r = z3.RealVal(str(a[0]))
        elif op == "app":
            r = self.var(t)
            if a[0] == "+oo":
                raise ValueError("infinite constant")
            if isinstance(a[0], str) and a[0].startswith("#") and a[0] != "#idx":
                self.facts.append(r >= 1)
        elif op in ("delta", "mask"):
            r = self.var(t)
            self.facts.append(z3.Or(r == 0, r == 1))
        elif op == "+":
            r = z3.Sum([self.real(x) for x in a])
        elif op == "*":
            r = self.real(a[0])
            for x in a[1:]:
                r = r * self.real(x)
        elif op == "max":
            x, y = self.real(a[0]), self.real(a[1])
            r = z3.If(x >= y, x, y)
        elif op == "min":
            x, y = self.real(a[0]), self.real(a[1])
            r = z3.If(x <= y, x, y)
        elif op == "abs":
            x = self.real(a[0])
            r = z3.If(x >= 0, x, -x)
        elif op == "sign":
            x = self.real(a[0])
            r = z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))
        elif op == "recip":
            x = self.real(a[0])
            r = self.var(t)
            self.facts.append(z3.Implies(x != 0, r * x == 1))
            self.facts.append(z3.Implies(x > 0, r > 0))
            self.facts.append(z3.Implies(x < 0, r < 0))
        elif op == "ite":
            r = z3.If(self.cond(a[0]), self.real(a[1]), self.real(a[2]))
        elif op == "ind":
            r = z3.If(self.cond(a[0]), z3.RealVal(1), z3.RealVal(0))
        elif op == "fn":
            args = [self.real(x) for x in a[1:]]
            r = self.var(t)
            self.fns.setdefault(a[0], []).append((t, args, r))
            FNS(self, a[0], args, r)
        elif op in ("sum", "maxo", "mino"):
            r = self.var(t)
        elif op == "maxmask":
            ms = [self.real(x) for x in a[0::2]]
            vs = [self.real(x) for x in a[1::2]]
            r = self.var(t)
            self.facts.append(z3.Or([z3.And(m == 1, r == v) for m, v in zip(ms, vs)]))
            for m, v in zip(ms, vs):
                self.facts.append(z3.Implies(m == 1, r >= v))
        else:
            raise ValueError(f"cannot encode {op}")
        self.memo[t] = r
        return r

    def cond(self, c):
        r = self.memo.get(c)
        if r is not None:
            return r
        op = c.op
        if op == "true":
            r = z3.BoolVal(True)
        elif op == "false":
            r = z3.BoolVal(False)
        elif op == "ge":
            r = self.real(c.args[0]) >= self.real(c.args[1])
        elif op == "eq":
            r = self.real(c.args[0]) == self.real(c.args[1])
        elif op == "not":
            r = z3.Not(self.cond(c.args[0]))
        elif op == "and":
            r = z3.And([self.cond(x) for x in c.args])
        elif op == "or":
            r = z3.Or([self.cond(x) for x in c.args])
        elif op == "ieq":
            r = z3.Bool(f"ieq_{c.id}")
        else:
            raise ValueError(f"condition {op}")
        self.memo[c] = r
        return r


def FNS(enc, name, args, r):
    """mathematical facts about the real functions (per application); pairwise facts on demand"""
    x = args[0]
    F = enc.facts
    prev = enc.fns[name][:-1]
    for _, pa, pr in prev:
        if name in ("exp", "sigmoid", "tanh", "softplus", "softsign", "log", "sqrt"):
            F.append(z3.Implies(pa[0] == x, pr == r))
    if name == "exp":
        F.append(r > 0)
        F.append(r >= 1 + x)
        for _, pa, pr in prev:
            F.append(z3.Implies(x > pa[0], r > pr))
            F.append(z3.Implies(x < pa[0], r < pr))
            # tangents: exp(y) >= exp(x)(1+y-x)
            F.append(r >= pr * (1 + x - pa[0]))
            F.append(pr >= r * (1 + pa[0] - x))
    elif name == "sqrt":
        F.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    elif name == "sigmoid":
        F.append(z3.And(r > 0, r < 1))
        for _, pa, pr in prev:
            F.append(z3.Implies(x > pa[0], r > pr))
            F.append(z3.Implies(x < pa[0], r < pr))
    elif name == "tanh" or name == "softsign":
        F.append(z3.And(r > -1, r < 1))
        for _, pa, pr in prev:
            F.append(z3.Implies(x > pa[0], r > pr))
            F.append(z3.Implies(x < pa[0], r < pr))
    elif name == "softplus":
        F.append(z3.And(r > 0, r > x))
        for _, pa, pr in prev:
            F.append(z3.Implies(x > pa[0], r > pr))
            F.append(z3.Implies(x < pa[0], r < pr))
    elif name == "log":
        F.append(z3.Implies(x > 0, r <= x - 1))
        for _, pa, pr in prev:
            F.append(z3.Implies(z3.And(pa[0] > 0, x > pa[0]), r > pr))
            F.append(z3.Implies(z3.And(x > 0, x < pa[0]), r < pr))


SCALE = 1.0  # of every time limit (larger in the second attempt at an obligation)


def solve(hyps, goal, timeout, first=False):
    timeout = timeout * SCALE
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", s.model()
    if first:
        return "unknown", None
    # second try: nlsat on the ite-free form
    g = z3.Goal()
    for a in s.assertions():
        g.add(a)
    try:
        tac = z3.TryFor(
            z3.Then("simplify", "elim-term-ite", "solve-eqs", "propagate-values", "simplify", "qfnra"), int(timeout * 1000)
        )
        s2 = tac.solver()
        s2.add(s.assertions())
        r = s2.check()
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", s2.model()
    except z3.Z3Exception:
        pass
    t0 = time.time()
    ok = cvc5_unsat(s, timeout)
    STATS["cvc5_s"] += time.time() - t0
    STATS["cvc5"] += 1
    if ok:
        return "unsat-cvc5", None
    return "unknown", None


def cvc5_unsat(s, timeout):
    try:
        import cvc5

        slv = cvc5.Solver()
        slv.setLogic("QF_NRA") if False else slv.setLogic("ALL")
        slv.setOption("tlimit-per", str(int(timeout * 1000)))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, s.to_smt2(), "q")
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(slv, sm)
            if "unsat" in str(out):
                return True
        return False
    except Exception:
        return False
