"""Announced shapes: what a layer announces for symbolic inputs are the shapes of the tensors it computes.

The scenes of the soundness properties are executed again; after each call of a decomon layer, the shapes announced for the shapes of its
inputs are compared with those of its outputs (sizes are symbolic, so the equality is one of dimensions). Nothing else is asked here."""
import os
import zlib

from engine.tensor import dim
from .lib import case, dsize, modular
from .c16 import layer_classes
from . import c04, c05, c06, c07, c08, c09, c11, c12, c13


def shapes(xs):
    return [tuple(x.shape) for x in (xs if isinstance(xs, (list, tuple)) else [xs])]


def agree(got, want):
    """None stands for the batch size"""
    return len(got) == len(want) and all(g == w or (g is None and k == 0) for k, (g, w) in enumerate(zip(got, want)))


def hook(ctx, fact):
    from decomon.backward_layers.core import BackwardLayer
    from decomon.layers.core import DecomonLayer
    import decomon.backward_layers.backward_merge as BM

    depth = [0]

    def wrap(cls, orig):
        def call(self, inputs, *a, **k):
            depth[0] += 1
            try:
                out = orig(self, inputs, *a, **k)
            finally:
                depth[0] -= 1
            if depth[0] == 0:
                ins = shapes(inputs)
                want = shapes(out)
                try:
                    got = [tuple(s) for s in self.compute_output_shape(ins)]
                except Exception as e:
                    got = f"{type(e).__name__}: {e}"
                ok = isinstance(got, list) and len(got) == len(want) and all(agree(g, w) for g, w in zip(got, want))
                fact(f"{cls.__name__}: announced shapes", ok, f"{got}, computed {want}")
                if not isinstance(self, BackwardLayer):
                    other = dsize((dim("Bother"),))
                    free = [(other,) + s[1:] for s in ins]
                    try:
                        got = [tuple(s) for s in self.compute_output_shape(free)]
                    except Exception as e:
                        got = f"{type(e).__name__}: {e}"
                    ok = isinstance(got, list) and len(got) == len(want) and all(g == (other,) + w[1:] for g, w in zip(got, want))
                    fact(f"{cls.__name__}: announced shapes, another batch size", ok, f"{got}, computed {want}")
            return out

        return call

    for base, prefix in ((DecomonLayer, "decomon.layers"), (BackwardLayer, "decomon.backward_layers")):
        for c in layer_classes(base, prefix):
            if "Merge" in c.__name__:
                continue
            modular.patch_attr(c, "call", wrap(c, c.__dict__["call"]))


def announced(c):
    def r(ctx):
        fact = ctx.fact
        n = [0]

        def mine(nm, ok, detail=None):
            n[0] += 1
            return fact(nm, ok, detail)

        ctx.forall = ctx.prove = lambda *a, **k: True
        ctx.isolate = lambda name, atom, f, i: __import__("engine.terms", fromlist=["TRUE"]).TRUE
        ctx.fact = lambda *a, **k: a[1]
        hook(ctx, mine)
        c["run"](ctx)
        if not n[0]:
            fact("a layer is called", False, "no layer in this scene")

    return r


def concerned(m, n):
    """the cases of layers"""
    if m is c11 and os.environ.get("VERIF_TIER") != "thorough" and zlib.crc32(n.encode()) % 5:
        return False
    functions = {c06: ("relu_",), c07: ("derivative", "get_t", "softmax rank"), c09: ("add", "max", "min", "mul", "sub"), c13: ("BatchedDiag",)}
    return "identity input" not in n and "hull" not in n and not n.startswith(functions.get(m, ("no such",)))


def run_ops(rank):
    """operations on tensors with symbolic sizes"""

    def r(ctx):
        from decomon.keras_utils import BatchedDiagLike, BatchedIdentityLike
        from engine.stubkeras import KerasTensor
        from engine.tensor import con, dim
        from .lib import declare

        for op, x in ((BatchedIdentityLike(), declare("x", *[(d,) for d in [dim("B")] + [dim(f"n{k}") for k in range(rank - 1)]])), (BatchedDiagLike(), declare("x", (con(2),), (dim("n"),)))):
            got = op.compute_output_spec(x).shape
            want = tuple(op.call(x).shape)
            ctx.fact(f"{type(op).__name__}: announced shape", tuple(got) == want, f"{got}, computed {want}")

    return r


def cases():
    out = []
    for m in (c04, c05, c06, c07, c08, c09, c11, c12, c13):
        if os.environ.get("ONLY", "c") not in m.__name__:
            continue
        for c in m.cases():
            if concerned(m, c["name"]):
                out.append(case(f"{m.__name__[-3:].upper()} {c['name']}", announced(c), c["functions"]))
    for k in (1, 2, 3):
        out.append(case(f"operations on tensors of rank {k}", run_ops(k), [f"decomon.keras_utils.{n}.compute_output_spec" for n in ("BatchedIdentityLike", "BatchedDiagLike")]))
    return out
