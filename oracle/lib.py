"""Run-time evaluation of the contracts on the real code with the real keras (used to replay refuted obligations
and as the bounded stand-in where a function is outside the verifier's reach)."""
import json
import os
import sys
import time
import traceback

os.environ.setdefault("KERAS_BACKEND", os.environ.get("VERIF_BACKEND", "torch"))
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.dont_write_bytecode = True
SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
if SRC not in sys.path:
    sys.path.insert(0, SRC)

import numpy as np  # noqa: E402

_keras = None


def keras():
    global _keras
    if _keras is None:
        import keras as k

        k.config.set_floatx("float64")
        try:
            import torch

            torch.set_num_threads(1)
            torch.set_default_dtype(torch.float64)
        except Exception:
            pass
        _keras = k
    return _keras


class Violation(Exception):
    def __init__(self, msg, /, **data):
        super().__init__(msg)
        self.msg = msg
        self.data = data


def jsonable(x):
    if isinstance(x, np.ndarray):
        return {"shape": list(x.shape), "values": np.asarray(x, dtype=float).ravel().tolist()[:400]}
    if isinstance(x, (np.floating, np.integer)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)


CASES = []
POINT = {"on": False}  # domains reduced to a point, bounds compared with the value both ways


def case(name):
    def deco(f):
        CASES.append((name, f))
        return f

    return deco


def tt(x):
    import keras.ops as K

    return K.convert_to_tensor(np.asarray(x, dtype="float64"))


def nn(t):
    import keras.ops as K

    return np.asarray(K.convert_to_numpy(t))


TOL = 2e-6
TRACE = {"crc": 0, "nontrivial": False, "n": 0}


def _trace(a, b):
    import zlib

    TRACE["n"] += int(a.size)
    TRACE["crc"] = zlib.crc32(np.ascontiguousarray(a).tobytes(), zlib.crc32(np.ascontiguousarray(b).tobytes(), TRACE["crc"]))
    TRACE["nontrivial"] |= bool(np.any(a != b))


def leq(a, b, what, slack=0.0, /, **data):
    """a <= b up to rounding; NaN is a violation"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    try:
        a, b = np.broadcast_arrays(a, b)
    except ValueError:
        raise Violation(f"{what}: shapes {a.shape} and {b.shape}", **data)
    _trace(a, b)
    scale = 1.0 + np.abs(np.where(np.isfinite(a), a, 0)) + np.abs(np.where(np.isfinite(b), b, 0))
    bad = ~(a <= b + TOL * scale + slack)
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        raise Violation(f"{what}: {a[i]} > {b[i]} at {i}", **{**data, "index": i, "lhs": a, "rhs": b})


def close(a, b, what, slack=0.0, /, **data):
    leq(a, b, what + " (<=)", slack, **data)
    leq(b, a, what + " (>=)", slack, **data)


def same_shape(t, shape, what, /, **data):
    if tuple(t.shape) != tuple(shape):
        raise Violation(f"{what}: shape {tuple(t.shape)}, expected {tuple(shape)}", **data)


# ------------------------------------------------------------------ random data
def rnd(rng, *shape, special=True):
    """values with sign changes, zeros and ties"""
    x = rng.normal(size=shape) * rng.choice([0.3, 1.0, 3.0])
    if special and x.size:
        k = rng.random(size=shape)
        x = np.where(k < 0.06, 0.0, x)
        x = np.where((k > 0.06) & (k < 0.1), np.round(x), x)
    return x


class Dom:
    """a perturbation domain with its input tensor, and points of it"""

    def __init__(self, rng, kind="box", n=3, batch=2, centered=None):
        from decomon.core import BallDomain, BoxDomain

        self.kind, self.n, self.batch, self.rng = kind, n, batch, rng
        if kind == "box":
            a = rnd(rng, batch, n)
            b = rnd(rng, batch, n)
            self.lo, self.hi = np.minimum(a, b), np.maximum(a, b)
            if rng.random() < 0.2:
                self.hi[:, 0] = self.lo[:, 0]
            if POINT["on"]:
                self.hi = self.lo + 0.0
            self.x = np.stack([self.lo, self.hi], 1)
            self.domain = BoxDomain()
        else:
            p = {"ball_inf": np.inf, "ball_2": 2, "ball_1": 1}[kind]
            self.p = p
            self.eps = 0.0 if POINT["on"] else float(rng.choice([0.1, 0.5, 1.5, 0.0]))
            self.c = rnd(rng, batch, n)
            self.x = self.c
            self.domain = BallDomain(eps=self.eps, p=p)

    def points(self, k=12, w=None):
        """(k', batch, n) points of the domain, corners / extreme points included"""
        rng = self.rng
        out = []
        for j in range(k):
            if self.kind == "box":
                t = rng.random((self.batch, self.n))
                if j % 2 == 0:
                    t = np.round(t)
                out.append(self.lo + t * (self.hi - self.lo))
            else:
                d = rng.normal(size=(self.batch, self.n))
                if self.p == np.inf:
                    d = np.sign(d) if j % 2 == 0 else np.clip(d, -1, 1)
                elif self.p == 2:
                    d = d / np.linalg.norm(d, axis=-1, keepdims=True)
                else:
                    e = np.zeros_like(d)
                    m = np.argmax(np.abs(d), -1)
                    for b in range(self.batch):
                        e[b, m[b]] = np.sign(d[b, m[b]])
                    d = e if j % 2 == 0 else d / np.abs(d).sum(-1, keepdims=True)
                r = 1.0 if j % 3 else rng.random()
                out.append(self.c + self.eps * r * d)
        return np.stack(out)

    def argext(self, w, sgn):
        """(batch, n) point maximising sgn * w.x , w (batch, n)"""
        if self.kind == "box":
            return np.where(sgn * w >= 0, self.hi, self.lo)
        g = sgn * w
        if self.p == np.inf:
            return self.c + self.eps * np.sign(g)
        if self.p == 2:
            nrm = np.linalg.norm(g, axis=-1, keepdims=True)
            return self.c + self.eps * np.where(nrm > 0, g / np.maximum(nrm, 1e-300), 0)
        e = np.zeros_like(g)
        m = np.argmax(np.abs(g), -1)
        for b in range(self.batch):
            e[b, m[b]] = np.sign(g[b, m[b]])
        return self.c + self.eps * e


def dom_extrema(dom, w, b):
    """exact max and min over the domain of sum_m w[b,m,...] x[b,m] + b"""
    bt, n = w.shape[:2]
    out = w.shape[2:]
    w2 = w.reshape(bt, n, -1)
    mx = np.zeros((bt, w2.shape[-1]))
    mn = np.zeros_like(mx)
    for j in range(w2.shape[-1]):
        for sgn, t in ((1, mx), (-1, mn)):
            p = dom.argext(w2[:, :, j], sgn)
            t[:, j] = (w2[:, :, j] * p).sum(-1)
    return mx.reshape((bt,) + out) + b, mn.reshape((bt,) + out) + b


class Relax:
    """decomon inputs soundly enclosing a random function of the domain: y = W x + b + bump, evaluated pointwise"""

    def __init__(self, rng, dom, yshape, mode, dc=False, npts=8, loose=True, positive=None, spread=None):
        self.rng, self.dom, self.mode = rng, dom, mode
        loose = loose and not POINT["on"]
        bt, n = dom.batch, dom.n
        self.yshape = tuple(yshape)
        sh = (bt,) + self.yshape
        wsh = (bt, n) + self.yshape
        base = rnd(rng, *wsh)
        gap = rng.choice([0.0, 0.2, 1.0]) if loose else 0.0
        self.wu = base + gap * rnd(rng, *wsh)
        self.wl = base - gap * rnd(rng, *wsh)
        b0 = rnd(rng, *sh) * rng.choice([0.2, 1.0, 3.0])
        self.bu = b0 + 0.0
        self.bl = b0 - abs(rnd(rng, *sh)) * gap
        # make the affine lower bound below the upper one on the whole domain
        _, mn = dom_extrema(dom, self.wu - self.wl, self.bu - self.bl)
        self.bl = self.bl - np.maximum(0, -mn)
        if positive is not None:
            _, lo = dom_extrema(dom, self.wl, self.bl)
            sft = np.maximum(0, positive - lo)
            self.bl, self.bu = self.bl + sft, self.bu + sft
        mxu, _ = dom_extrema(dom, self.wu, self.bu)
        _, mnl = dom_extrema(dom, self.wl, self.bl)
        k = rng.random()
        if mode == "hybrid" and not POINT["on"]:
            # constant bounds: sometimes tighter, sometimes looser than the affine ones
            self.u = mxu + (rng.choice([0.0, 0.5]) if k < 0.5 else 0)
            self.l = mnl - (rng.choice([0.0, 0.5]) if k < 0.5 else 0)
            if rng.random() < 0.3:
                cut = rng.random(sh) * 0.3 * (mxu - mnl)
                self.u, self.l = self.u - cut, self.l + cut
        else:
            self.u, self.l = mxu, mnl
        if positive is not None:
            self.l = np.maximum(self.l, positive)
            self.u = np.maximum(self.u, self.l)
        self.dc = dc
        self.repoint(dom.points(npts))

    def repoint(self, points):
        """values admissible at the given points"""
        rng, mode, sh = self.rng, self.mode, (self.dom.batch,) + self.yshape
        self.pts = []
        for p in points:
            au = np.einsum("bn...,bn->b...", self.wu, p) + self.bu
            al = np.einsum("bn...,bn->b...", self.wl, p) + self.bl
            if mode == "hybrid":
                hi, lo = np.minimum(au, self.u), np.maximum(al, self.l)
            elif mode == "ibp":
                hi, lo = self.u, self.l
            else:
                hi, lo = au, al
            ok = (hi >= lo) | POINT["on"]
            t = rng.random(sh)
            t = np.where(rng.random(sh) < 0.5, np.round(t), t)
            y = lo + t * (hi - lo)
            # where the enclosure is empty at this point there is no admissible y
            self.pts.append((p, np.where(ok, y, np.nan)))

    def inputs(self):
        x = self.dom.x
        o = {
            "hybrid": [x, self.u, self.wu, self.bu, self.l, self.wl, self.bl],
            "ibp": [self.u, self.l],
            "affine": [x, self.wu, self.bu, self.wl, self.bl],
        }[self.mode]
        return [tt(a) for a in o]

    def data(self):
        return {
            "x": self.dom.x, "u_c": self.u, "l_c": self.l, "w_u": self.wu, "b_u": self.bu, "w_l": self.wl, "b_l": self.bl,
            "domain": self.dom.kind, "eps": getattr(self.dom, "eps", None),
        }


def check_out(outs, mode, pts, f, what, slack=0.0, data=None):
    """outs (decomon tensors) enclose f(p, y) at each point (p, y); NaN y are skipped element-wise when f is element-wise"""
    data = data or {}
    cmp = close if POINT["on"] else leq
    outs = [nn(o) for o in outs]
    nb = {"hybrid": 7, "ibp": 2, "affine": 5}[mode]
    if len(outs) != nb:
        raise Violation(f"{what}: {len(outs)} tensors, expected {nb}", **data)
    if mode == "hybrid":
        x, u, wu, bu, l, wl, bl = outs
    elif mode == "ibp":
        u, l = outs
    else:
        x, wu, bu, wl, bl = outs
    for p, z in pts:
        v = f(z)
        m = ~np.isnan(v)
        z_ = dict(point=p, y=z, value=v, **data)
        if mode in ("hybrid", "ibp"):
            same_shape(u, v.shape, what + ": u_c", **data)
            same_shape(l, v.shape, what + ": l_c", **data)
            cmp(np.where(m, v, 0), np.where(m, u, 0), what + ": value above u_c", slack, **z_)
            cmp(np.where(m, l, 0), np.where(m, v, 0), what + ": value below l_c", slack, **z_)
        if mode in ("hybrid", "affine"):
            if wu.ndim == v.ndim:
                continue
            same_shape(wu, (v.shape[0], p.shape[-1]) + v.shape[1:], what + ": w_u", **data)
            same_shape(wl, (v.shape[0], p.shape[-1]) + v.shape[1:], what + ": w_l", **data)
            same_shape(bu, v.shape, what + ": b_u", **data)
            same_shape(bl, v.shape, what + ": b_l", **data)
            au = np.einsum("bn...,bn->b...", wu, p) + bu
            al = np.einsum("bn...,bn->b...", wl, p) + bl
            cmp(np.where(m, v, 0), np.where(m, au, 0), what + ": value above w_u.x+b_u", slack, **z_)
            cmp(np.where(m, al, 0), np.where(m, v, 0), what + ": value below w_l.x+b_l", slack, **z_)


KINDS = ("box", "ball_inf", "ball_2", "ball_1")


def forward_cases(name, make, f, yshape, modes=("hybrid", "ibp", "affine"), dc=False, kinds=("box", "ball_2"), slack=0.0, elementwise=True, positive=None):
    """make(rng, yshape, domain, mode, dc) -> decomon layer; f(layer) -> numpy function of the value (batch, *yshape)"""
    for mode in modes:
        for with_dc in (False, True) if dc else (False,):

            def run(rng, mode=mode, with_dc=with_dc):
                ys = yshape(rng) if callable(yshape) else yshape
                kind = kinds[int(rng.integers(len(kinds)))]
                dom = Dom(rng, kind, n=int(rng.integers(1, 4)), batch=int(rng.integers(1, 3)))
                r = Relax(rng, dom, ys, mode, positive=positive)
                ins = r.inputs()
                pts = [(p, y) for p, y in r.pts if elementwise or not np.isnan(y).any()]
                layer = make(rng, ys, dom.domain, mode, with_dc)
                if with_dc:
                    if not pts:
                        return
                    p, y = pts[0]
                    y = np.where(np.isnan(y), 0.0, y)
                    if np.isnan(pts[0][1]).any():
                        return
                    h = rnd(rng, *y.shape)
                    ins = ins + [tt(h), tt(y - h)]
                    pts = [(p, y)]
                outs = list(layer(ins))
                fn = f(layer)
                d = r.data()
                if with_dc:
                    nb = {"hybrid": 9, "ibp": 4, "affine": 7}[mode]
                    if len(outs) != nb:
                        raise Violation(f"{name}: {len(outs)} tensors, expected {nb}", **d)
                    hh, gg = nn(outs[-2]), nn(outs[-1])
                    v = fn(pts[0][1])
                    same_shape(hh, v.shape, "h", **d)
                    close(hh + gg, v, f"{name}: h+g", slack, **d)
                    outs = outs[:-2]
                check_out(outs, mode, pts, fn, name, slack, d)

            CASES.append((f"{name} {mode}{' dc' if with_dc else ''}", run))


def multi_cases(name, call, f, yshapes, modes=("hybrid", "ibp", "affine"), kinds=("box", "ball_2"), slack=0.0, positive=None, elementwise=False, dom_kw=None):
    """call(rng, domain, mode, [inputs per operand], shapes) -> decomon tensors; f(*values) numpy"""
    for mode in modes:

        def run(rng, mode=mode):
            yss = yshapes(rng) if callable(yshapes) else yshapes
            kind = kinds[int(rng.integers(len(kinds)))]
            dom = Dom(rng, kind, n=int(rng.integers(1, 4)), batch=int(rng.integers(1, 3)))
            rs = [Relax(rng, dom, ys, mode, positive=positive) for ys in yss]
            base = [p for p, _ in rs[0].pts]
            for r in rs[1:]:
                r.repoint(base)
            outs = list(call(rng, dom.domain, mode, [r.inputs() for r in rs], yss))
            pts = []
            for j, p in enumerate(base):
                ys = [r.pts[j][1] for r in rs]
                if not elementwise and any(np.isnan(y).any() for y in ys):
                    continue
                pts.append((p, ys))
            data = {f"operand{k}": r.data() for k, r in enumerate(rs)}
            check_out(outs, mode, pts, lambda ys: f(*ys), name, slack, data)

        CASES.append((f"{name} {mode}", run))


def set_weights(rng, layer):
    """random values in every variable of the layer (variances positive)"""
    for v in layer.weights:
        a = rnd(rng, *v.shape)
        if "variance" in v.path or "variance" in v.name:
            a = np.abs(a) + 0.1
        v.assign(a)


def build(layer, ys, n, mode, dc, batch=None):
    b = (batch,)
    s = b + tuple(ys)
    w = b + (n,) + tuple(ys)
    x = b + (n,)
    sh = {"hybrid": [x, s, w, s, s, w, s], "ibp": [s, s], "affine": [x, w, s, w, s]}[mode] + ([s, s] if dc else [])
    layer.build(sh)
    layer.built = True
    return layer


# ------------------------------------------------------------------ backward layers
def keras_built(layer, ys, rng=None, n_inputs=1):
    """the keras layer, called on symbolic inputs of the given shape(s), with random weights"""
    k = keras()
    yss = ys if n_inputs > 1 else [ys]
    ins = [k.layers.Input(tuple(s)) for s in yss]
    layer(ins if n_inputs > 1 else ins[0])
    if rng is not None:
        set_weights(rng, layer)
    return layer


def check_backward(bounds, y, z, what, exact=False, slack=0.0, /, **data):
    """w_l.y + b_l <= z <= w_u.y + b_u (== when exact), everything flattened; diagonal weights allowed"""
    wu, bu, wl, bl = [nn(t) for t in bounds]
    y, z = y.reshape(len(y), -1), z.reshape(len(z), -1)
    m = ~np.isnan(z)
    y = np.where(np.isnan(y), 0.0, y)

    def aff(w, b, nm):
        if w.ndim == 2:
            same_shape(w, y.shape, what + ": w_" + nm, **data)
            r = w * y + b
        else:
            same_shape(w, (len(y), y.shape[1], z.shape[1]), what + ": w_" + nm, **data)
            r = np.einsum("bi,bio->bo", y, w) + b
        same_shape(b, z.shape, what + ": b_" + nm, **data)
        return r

    u, l = aff(wu, bu, "u"), aff(wl, bl, "l")
    d = dict(y=y, value=z, **data)
    f = lambda t: np.where(m, t, 0)
    leq(f(z), f(u), what + ": value above w_u.y+b_u", slack, **d)
    leq(f(l), f(z), what + ": value below w_l.y+b_l", slack, **d)
    if exact:
        leq(f(u), f(z), what + ": w_u.y+b_u above the value", slack, **d)
        leq(f(z), f(l), what + ": w_l.y+b_l below the value", slack, **d)


# ------------------------------------------------------------------ runner
def main(prop, argv):
    import argparse
    import importlib

    ap = argparse.ArgumentParser()
    ap.add_argument("--budget", type=float, default=40)
    ap.add_argument("--reps", type=int, default=6)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("--oneseed", type=int)
    ap.add_argument("--shard", default="0/1")
    a = ap.parse_args(argv)
    keras()
    CASES.clear()
    importlib.import_module(f"oracle.o{prop[1:]}" if prop[0] == "C" else prop)
    t0 = time.time()
    cases = [c for c in CASES if a.only is None or c[0] == a.only]
    si, sn = map(int, a.shard.split("/"))
    if a.only is None:
        cases = cases[si::sn]
    viol = {}
    count = {c[0]: 0 for c in cases}
    distinct = set()
    seeds = [a.oneseed] if a.oneseed is not None else [a.seed * 100003 + k for k in range(a.reps)]
    stopped = False
    for k, sd in enumerate(seeds):
        for name, f in cases:
            if name in viol:
                continue
            if time.time() - t0 > a.budget and a.oneseed is None and k > 0:
                stopped = True
                break
            import zlib

            rng = np.random.default_rng([sd, zlib.crc32(name.encode())])
            TRACE.update(crc=0, nontrivial=False)
            try:
                np.random.seed(sd % (2**31))
                f(rng)
            except Violation as v:
                viol[name] = {"case": name, "seed": sd, "msg": v.msg, "data": jsonable(v.data)}
            except Exception as e:
                viol[name] = {
                    "case": name,
                    "seed": sd,
                    "msg": f"{type(e).__name__}: {e}",
                    "exception": traceback.format_exc()[-3000:],
                    "data": {},
                }
            count[name] += 1
            if TRACE["nontrivial"]:
                distinct.add((name, TRACE["crc"]))
    res = {
        "violations": list(viol.values()),
        "evaluations": sum(count.values()),
        "distinct": len(distinct),
        "comparisons": TRACE["n"],
        "sample": {"case": cases[0][0], "seed": seeds[0]} if cases else None,
        "cases": len(cases),
        "stopped_by_budget": stopped,
        "t": round(time.time() - t0, 1),
    }
    if a.out:
        with open(a.out, "w") as fo:
            json.dump(res, fo)
    else:
        for v in res["violations"]:
            print("VIOL", v["case"], v["seed"], v["msg"][:300])
            if "exception" in v:
                print(v["exception"][-700:])
        print({k: v for k, v in res.items() if k != "violations"})
    return res


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from oracle import lib

    lib.main(sys.argv[1], sys.argv[2:])
