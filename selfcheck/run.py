"""Are the contracts assumed on keras.ops and on the keras layers (engine/kops.py, engine/stubkeras.py) true of the keras installed here?
Each function is called on symbolic tensors with symbolic sizes, its terms are evaluated with random sizes and entries, and compared with the
real function on the same arrays (a bounded validation of the trusted base: nothing is proved by it).

  cd /verif && KERAS_BACKEND=torch /opt/venv/bin/python -m selfcheck.run [seed]"""
import itertools
import os
import sys

os.environ.setdefault("KERAS_BACKEND", "torch")
import numpy as np
import keras

keras.config.set_floatx("float64")
import keras.ops as RK
from engine import kops as SK
from engine import stubkeras as SL
from engine import tensor as S
from engine import terms as T
from .value import Value

CASES = []


def op(name, shapes, f, **kw):
    CASES.append((name, shapes, f, kw))


def dims_of(spec, syms):
    out = []
    for s in spec.split():
        d = ()
        for p in s.split("*"):
            if p == "1":
                continue
            d += (S.con(int(p)),) if p.isdigit() else (syms[p],)
        out.append(d)
    return out


def flat(o):
    return [t for x in o for t in flat(x)] if isinstance(o, (list, tuple)) else [o]


# ------------------------------------------------------------------ keras.ops
UN = ["absolute", "sign", "square", "negative", "relu", "exp", "sigmoid", "tanh", "softplus", "softsign", "elu", "selu", "silu", "gelu",
      "hard_sigmoid", "log_sigmoid", "ones_like", "zeros_like", "leaky_relu"]
for n in UN:
    op(n, ["b n"], lambda K, x, n=n: getattr(K, n)(x))
for n in ("log", "sqrt"):
    op(n, ["b n"], lambda K, x, n=n: getattr(K, n)(x), pos=True)
for n in ("maximum", "minimum", "add", "subtract", "multiply", "divide", "greater", "greater_equal", "less", "less_equal", "equal", "not_equal"):
    for s in (["b n", "b n"], ["b n m", "n 1"], ["n", "b 1 n"], ["b n*m", "b n*m"], ["b n", ""], ["b 3", "b 3"]):
        op(n, s, lambda K, x, y, n=n: getattr(K, n)(x, y), pos=n == "divide", ints=n in ("equal", "not_equal"))
op("operators", ["b n", "n"], lambda K, x, y: [x + y, x - y, x * y, x / y, -x, 2 * x, 1 - x, x**2, x > y, x >= y, x < y, x <= y, 1 / y], pos=True)
op("where", ["b n", "n", "b n"], lambda K, c, x, y: K.where(c > 0, x, y))
op("where 2", ["b n", "b n"], lambda K, x, y: K.where(K.logical_or(x > y, K.logical_not(y > 0)), x, K.zeros_like(x)))
op("clip", ["b n"], lambda K, x: K.clip(x, -0.5, 0.5))
op("clip 2", ["b n"], lambda K, x: -K.clip(K.sign(x) - 1.0, -1.0, 0.0))
op("cast", ["b n"], lambda K, x: K.cast(x > 0, "float64"))
op("power", ["b n"], lambda K, x: [K.power(x, 2), K.power(x, 3)])
op("logical", ["b n", "b n"], lambda K, x, y: [K.logical_and(x > 0, y > 0), K.logical_or(x > 0, y > 0), K.logical_not(x > 0), K.logical_xor(x > 0, y > 0)])
for r, s in (("b n", 2), ("b n m", 3), ("b 2 m 3", 4), ("b n*m k", 3), ("b 1 n", 3)):
    for a in range(-s, s):
        for n in ("sum", "mean", "max", "min"):
            for kd in (False, True):
                op(f"{n} {a} {kd}", [r], lambda K, x, n=n, a=a, kd=kd: getattr(K, n)(x, axis=a, keepdims=kd))
        op(f"expand_dims {a}", [r], lambda K, x, a=a: K.expand_dims(x, a))
        op(f"argmax {a}", [r], lambda K, x, a=a: K.argmax(x, axis=a), may=True)
        op(f"argmin {a}", [r], lambda K, x, a=a: K.argmin(x, axis=a), may=True)
        op(f"repeat {a}", [r], lambda K, x, a=a: K.repeat(x, 2, axis=a), may=True)
        op(f"softmax {a}", [r], lambda K, x, a=a: K.softmax(x, axis=a))
        op(f"concatenate {a}", [r, r], lambda K, x, y, a=a: K.concatenate([x, y], a))
        op(f"concatenate3 {a}", [r, r, r], lambda K, x, y, z, a=a: K.concatenate([x, y, z], a))
        op(f"concatenate sum {a}", [r, r], lambda K, x, y, a=a: K.sum(K.concatenate([x, y * y], a), a))
        op(f"stack {a}", [r, r], lambda K, x, y, a=a: K.stack([x, y], a))
        op(f"flip {a}", [r], lambda K, x, a=a: K.flip(x, axis=a), may=True)
        op(f"cumsum {a}", [r], lambda K, x, a=a: K.cumsum(x, axis=a), may=True)
        op(f"sort {a}", [r], lambda K, x, a=a: K.sort(x, axis=a), may=True)
        op(f"split of concatenate {a}", [r, r], lambda K, x, y, a=a: K.split(K.concatenate([x, y], a), [x.shape[a]], a), may=True)
    op("sum all", [r], lambda K, x: [K.sum(x), K.max(x), K.min(x)])
    op("flatten", [r], lambda K, x: K.reshape(x, (-1,)))
    op("flatten but the batch", [r], lambda K, x: K.reshape(x, (x.shape[0], -1)))
    op("flatten both", [r], lambda K, x: K.reshape(K.reshape(x, (-1,) + tuple(x.shape[1:])), (-1, int(np.prod(x.shape[1:])))))
    op("reshape back", [r], lambda K, x: K.reshape(K.reshape(x, (-1,)), tuple(x.shape)))
    op("reshape ones", [r], lambda K, x: K.reshape(x, (1,) + tuple(x.shape) + (1,)))
    for p in itertools.islice(itertools.permutations(range(s)), 8):
        op(f"transpose {p}", [r], lambda K, x, p=p: K.transpose(x, p))
        op(f"transpose then flatten {p}", [r], lambda K, x, p=p: K.reshape(K.transpose(x, p), (x.shape[p[0]], -1)))
    op("transpose", [r], lambda K, x: K.transpose(x))
    op("moveaxis", [r], lambda K, x: K.moveaxis(x, 1, -1))
    op("swapaxes", [r], lambda K, x: K.swapaxes(x, 0, 1))
    op("index 0", [r], lambda K, x: x[:, 0], may=True)
    op("index None", [r], lambda K, x: [x[None], x[:, None], x[..., None]])
    op("index -1", [r], lambda K, x: x[..., -1], may=True)
    op("sum several", [r], lambda K, x: [K.sum(x, (0, 1)), K.max(x, axis=(-1, 0))])
op("squeeze", ["b 1 n"], lambda K, x: [K.squeeze(x, 1), K.squeeze(x, -2)])
op("slices", ["b 4 n"], lambda K, x: [x[:, 1:], x[:, :-1], x[:, 0:1], x[:, 2], x[:, -1], x[:, ::2]])
op("split sections", ["b 6 n"], lambda K, x: K.split(x, 3, 1))
op("split indices", ["b 6"], lambda K, x: K.split(x, [1, 4], -1))
op("take", ["b 4 n"], lambda K, x: K.take(x, np.array([2, 0]), 1))
op("tile", ["b n"], lambda K, x: K.tile(x, [1, 2]), may=True)
op("repeat n", ["b n"], lambda K, x: K.repeat(x[:, None], 3, axis=1))
op("broadcast_to", ["1 n", "b n"], lambda K, x, y: K.broadcast_to(x, y.shape))
op("eye", ["b n"], lambda K, x: [K.eye(x.shape[1]), K.matmul(x, K.eye(x.shape[1])), K.identity(x.shape[1])])
op("diag", ["n"], lambda K, x: K.diag(x))
op("diag of ones", ["n b"], lambda K, x: K.dot(K.diag(K.ones_like(x[:, 0])), x), may=True)
op("full", ["b n"], lambda K, x: [K.full(x.shape, 2.0), K.zeros(x.shape), K.ones(x.shape)])
op("one_hot", ["b 4"], lambda K, x: K.one_hot(K.argmax(x, axis=-1), 4))
op("one_hot symbolic", ["b n"], lambda K, x: K.one_hot(K.argmax(x, axis=-1), x.shape[1]))
op("one_hot times", ["b n", "b n"], lambda K, x, y: K.sum(K.one_hot(K.argmin(x, axis=-1), x.shape[1]) * y, -1))
op("matmul", ["b n", "n m"], lambda K, x, y: [K.matmul(x, y), x @ y])
op("matmul batch", ["b n k", "b k m"], lambda K, x, y: K.matmul(x, y))
op("matmul batch 2", ["b n k", "k m"], lambda K, x, y: K.matmul(x, y))
op("matmul batch 3", ["b 2 n k", "b 2 k m"], lambda K, x, y: K.matmul(x, y))
op("matmul 4", ["b n*m", "n*m k"], lambda K, x, y: K.matmul(x, y))
op("dot", ["b n", "n m"], lambda K, x, y: K.dot(x, y))
op("dot 3", ["b m n", "n k"], lambda K, x, y: K.dot(x, y))
op("dot 3 3", ["b m n", "k n b"], lambda K, x, y: K.dot(x, y), torch=False)
op("tensordot", ["b m n", "m n k"], lambda K, x, y: [K.tensordot(x, y, 2), K.tensordot(x, y, axes=[[1, 2], [0, 1]])])
op("einsum", ["b n m", "b m k"], lambda K, x, y: [K.einsum("bnm,bmk->bnk", x, y), K.einsum("abc,acd->abd", x, y)])
op("outer", ["n", "m"], lambda K, x, y: K.outer(x, y))
op("norm 2", ["b n"], lambda K, x: [K.norm(x, 2, axis=1), K.norm(x, 1, axis=1), K.norm(x, ord=np.inf, axis=-1)], may=True)
op("var", ["b n"], lambda K, x: K.var(x, axis=1))
op("logsumexp", ["b n"], lambda K, x: K.logsumexp(x, axis=1))
op("average", ["b n"], lambda K, x: K.average(x, axis=1))
op("concatenate of slices", ["b 4 n"], lambda K, x: K.concatenate([x[:, 2:], x[:, :2]], 1))
op("concatenate then flatten", ["b n m", "b k m"], lambda K, x, y: K.reshape(K.concatenate([x, y], 1), (x.shape[0], -1)), may=True)
op("concatenate then matmul", ["b n", "b k", "m n"], lambda K, x, y, z: K.matmul(K.concatenate([x, y], 1), K.transpose(K.concatenate([z, K.zeros((z.shape[0], y.shape[1]))], 1))))

# ------------------------------------------------------------------ windows
for cf, pad, (kh, kw), st, dl, img in itertools.product((False, True), ("valid", "same"), ((1, 1), (2, 3), (3, 2)), (1, 2, (2, 1)), (1, 2), ("h w", "5 6")):
    if (st, dl) != (1, 1) and dl == 2 and st != 1:
        continue
    sh = f"b c {img}" if cf else f"b {img} c"
    df = "channels_first" if cf else "channels_last"
    op(f"conv {df} {pad} {kh, kw} {st} {dl} {img}", [sh, f"{kh} {kw} c k"],
       lambda K, x, k, pad=pad, st=st, dl=dl, df=df: K.conv(x, k, st, pad, df, dl), ref=True, torch=pad == "valid" or st == 1)
    if dl == 1 and pad == "valid" or img != "h w":
        op(f"max_pool {df} {pad} {kh, kw} {st} {img}", [sh], lambda K, x, kh=kh, kw=kw, pad=pad, st=st, df=df: K.max_pool(x, (kh, kw), st, pad, df), ref=True, may=True, torch=pad == "valid" or st == 1)
        op(f"extract_patches {df} {pad} {kh, kw} {st} {img}", [sh],
           lambda K, x, kh=kh, kw=kw, pad=pad, st=st, df=df: K.image.extract_patches(x, (kh, kw), st, 1, pad, df), may=True, ref=True, torch=pad == "valid" or st == 1)

# ------------------------------------------------------------------ layers (weights: random arrays on both sides)
LAYERS = []


def layer(name, shapes, make, **kw):
    LAYERS.append((name, shapes, make, kw))


for b in (True, False):
    for s in ("b n", "b m n", "b 1 n", "b 2 m n"):
        for a in (None, "relu", "tanh", "sigmoid", "softplus", "softsign", "softmax", "exponential"):
            layer(f"Dense {a}", [s], lambda L, x, b=b, a=a: L.Dense(4, use_bias=b, activation=a))
    for cf, pad, ks, st in itertools.product((False, True), ("valid", "same"), ((1, 1), (2, 3)), (1, (2, 1))):
        layer(f"Conv2D {cf} {pad} {ks} {st}", ["b c h w" if cf else "b h w c"],
              lambda L, x, b=b, cf=cf, pad=pad, ks=ks, st=st: L.Conv2D(3, ks, strides=st, padding=pad, use_bias=b, data_format="channels_first" if cf else "channels_last"), ref=True, torch=pad == "valid" or st == 1)
for a in ("relu", "tanh", "linear", "softmax", "exponential", "sigmoid", "softplus", "softsign"):
    layer(f"Activation {a}", ["b n"], lambda L, x, a=a: L.Activation(a))
    layer(f"Activation {a}", ["b n m"], lambda L, x, a=a: L.Activation(a))
for ax in (-1, 1, 2, -2):
    for c, s in itertools.product((True, False), repeat=2):
        layer(f"BatchNormalization {ax}", ["b n m"], lambda L, x, ax=ax, c=c, s=s: L.BatchNormalization(axis=ax, center=c, scale=s))
    layer("Softmax", ["b n m"], lambda L, x, ax=ax: L.Softmax(axis=ax))
for s in ("b n", "b n m", "b h w c", "b 2 3"):
    layer("Flatten", [s], lambda L, x: L.Flatten())
    layer("Flatten channels_first", [s], lambda L, x: L.Flatten(data_format="channels_first"))
    layer("Dropout", [s], lambda L, x: L.Dropout(0.5))
    layer("Reshape 1", [s], lambda L, x: L.Reshape((-1,)))
layer("Reshape", ["b 2 3 n"], lambda L, x: L.Reshape((6, -1)))
layer("Reshape 2", ["b 6 n"], lambda L, x: L.Reshape((2, 3, x.shape[-1])))
for p in itertools.permutations((1, 2, 3)):
    layer(f"Permute {p}", ["b n m k"], lambda L, x, p=p: L.Permute(p))
for n in ("Add", "Average", "Multiply", "Maximum", "Minimum"):
    for s in (["b n", "b n"], ["b n m"] * 3, ["b n m", "b 1 m"], ["b n"] * 4):
        layer(n, s, lambda L, x, n=n: getattr(L, n)())
layer("Subtract", ["b n", "b n"], lambda L, x: L.Subtract())
for ax in (1, -1, 2):
    layer(f"Concatenate {ax}", ["b n m", "b n m"], lambda L, x, ax=ax: L.Concatenate(ax))
layer("Concatenate", ["b n", "b m", "b k"], lambda L, x: L.Concatenate())
for a in (1, -1, (1, 1)):
    layer(f"Dot {a}", ["b n", "b n"], lambda L, x, a=a: L.Dot(a))
for a in ((1, 2), (2, 1), 1, 2, (2, 2), (-1, 1)):
    layer(f"Dot {a}", ["b n n", "b n n"], lambda L, x, a=a: L.Dot(a))
layer("Dot", ["b n k", "b m k"], lambda L, x: L.Dot(2))
layer("Dot", ["b n", "b n m"], lambda L, x: L.Dot((1, 1)))
for cf, pad, ps, st in itertools.product((False, True), ("valid", "same"), ((2, 2), (2, 1), (3, 3)), (None, 1, (2, 1))):
    layer(f"MaxPooling2D {cf} {pad} {ps} {st}", ["b c 5 6" if cf else "b 5 6 c"],
          lambda L, x, cf=cf, pad=pad, ps=ps, st=st: L.MaxPooling2D(ps, st, pad, data_format="channels_first" if cf else "channels_last"), ref=True, may=True, torch=pad == "valid" or st == 1)


def sizes_of(rng, names):
    big = {"h", "w"}
    return {n: int(rng.integers(5, 8)) if n in big else int(rng.integers(1, 4)) for n in names}


def arrays_of(rng, dims, V, kw):
    out = []
    for d in dims:
        sh = [V.asize(a) for t in d for a in t]
        a = rng.normal(size=sh)
        if kw.get("pos"):
            a = np.abs(a) + 0.1
        if kw.get("ints"):
            a = np.round(a)
        out.append(a)
    return out


def setup(rng, shapes):
    S.reset_dims()
    SK.ConvGeom.reset()
    names = sorted({p for s in shapes for t in s.split() for p in t.split("*") if not p.isdigit()})
    syms = {n: S.dim(n) for n in names}
    sizes = sizes_of(rng, names)
    V = Value(sizes, {})
    dims = [dims_of(s, syms) for s in shapes]
    return syms, V, dims


def compare(name, sym, real, V, st):
    sym, real = flat(sym), flat(real)
    if len(sym) != len(real):
        return f"{name}: {len(sym)} tensors, {len(real)} with keras"
    for k, (a, b) in enumerate(zip(sym, real)):
        a = V.array(S.as_tensor(a))
        b = np.asarray(RK.convert_to_numpy(RK.convert_to_tensor(b)), dtype=float)
        if a.shape != b.shape:
            return f"{name}: shape {a.shape}, {b.shape} with keras (sizes {V.sizes})"
        if not np.allclose(a, b, rtol=1e-7, atol=1e-8):
            return f"{name}: values differ by {np.max(np.abs(a - b))} (sizes {V.sizes})"
        st["entries"] += a.size
    return None


def real_ns():
    class NS:
        def __getattr__(self, n):
            return getattr(RK, n)

    return NS()


class SymNS:
    class image:
        extract_patches = staticmethod(SK.extract_patches)

    def __getattr__(self, n):
        return getattr(SK, n)


def torch_bug(name, kw):
    """with torch, keras 3.0.5 pads the wrong axis for 'same' windows with strides, and K.dot of two arrays of rank 3 is a matmul (decomon calls it
    on matrices only); the position maps of windows over symbolic sizes are uninterpreted, hence cover that padding too"""
    return keras.backend.backend() == "torch" and kw.get("torch") is False


def main(seed=1, rounds=2):
    bad, skipped = [], {}
    st = {"entries": 0, "checks": 0}
    rk, sk = real_ns(), SymNS()
    for r in range(rounds):
        for k, (name, shapes, f, kw) in enumerate(CASES):
            if torch_bug(name, kw):
                skipped[name] = "torch backend of keras 3.0.5"
                continue
            rng = np.random.default_rng([seed, r, k])
            syms, V, dims = setup(rng, shapes)
            arrs = arrays_of(rng, dims, V, kw)
            xs = []
            for j, (d, a) in enumerate(zip(dims, arrs)):
                V.arrays[f"x{j}"] = a
                xs.append(S.declare(f"x{j}", *d))
            full = [a.reshape([V.dsize(t) for t in d]) for d, a in zip(dims, arrs)]
            try:
                real = f(rk, *[RK.convert_to_tensor(a) for a in full])
                rerr = None
            except Exception as e:
                real, rerr = None, e
            try:
                sym = f(sk, *xs)
                e = None if rerr else compare(f"{name} {shapes}", sym, real, V, st)
            except (S.Unsupported, S.ShapeError) as ex:
                skipped[name] = str(ex)[:80]
                continue
            except KeyError as ex:
                e = f"{name} {shapes}: no value for {ex}"
            if rerr is not None:
                skipped[name] = "keras: " + str(rerr)[:80]
                continue
            st["checks"] += 1
            if e:
                bad.append(e)
        for k, (name, shapes, make, kw) in enumerate(LAYERS):
            if torch_bug(name, kw):
                skipped[name] = "torch backend of keras 3.0.5"
                continue
            rng = np.random.default_rng([seed, r, 7, k])
            syms, V, dims = setup(rng, shapes)
            arrs = arrays_of(rng, dims, V, kw)
            xs = []
            for j, (d, a) in enumerate(zip(dims, arrs)):
                V.arrays[f"x{j}"] = a
                xs.append(S.declare(f"x{j}", *d))
            full = [RK.convert_to_tensor(a.reshape([V.dsize(t) for t in d])) for d, a in zip(dims, arrs)]
            one = len(xs) == 1
            try:
                sl = make(SL, xs[0])
                sym = sl(xs[0] if one else xs)
            except (S.Unsupported, S.ShapeError) as ex:
                skipped[name] = str(ex)[:80]
                continue
            rl = make(keras.layers, full[0])
            try:
                rl.build(full[0].shape if one else [tuple(a.shape) for a in full])
                ws = sl.weights
                rws = []
                for w in ws:
                    a = np.abs(rng.normal(size=[V.asize(x) for d in w.dims for x in d])) + 0.05 if "variance" in w.name else rng.normal(size=[V.asize(x) for d in w.dims for x in d])
                    V.arrays[w.path] = a
                    rws.append(a.reshape([V.dsize(d) for d in w.dims]))
                rl.set_weights(rws)
                real = rl(full[0] if one else full)
            except Exception as ex:
                skipped[name] = "keras: " + str(ex)[:80]
                continue
            st["checks"] += 1
            try:
                e = compare(f"{name} {shapes}", sym, real, V, st)
                if not e and not kw.get("ref"):
                    cs = tuple(sl.compute_output_shape(xs[0].shape if one else [x.shape for x in xs]))
                    if cs != tuple(sym.shape):
                        e = f"{name} {shapes}: compute_output_shape {cs} of the stand-in, tensor {sym.shape}"
            except KeyError as ex:
                e = f"{name} {shapes}: no value for {ex}"
            if e:
                bad.append(e)
    print(f"selfcheck: {st['checks']} comparisons ({st['entries']} entries) of the assumed contracts with keras {keras.__version__}, {len(skipped)} not run, {len(bad)} differences")
    for n, w in sorted(skipped.items()):
        if os.environ.get("SHOW"):
            print("  not run:", n, "|", w)
    for b in bad[: int(os.environ.get("N", 30))]:
        print("  ", b)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 1))
