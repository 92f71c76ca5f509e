"""Announced shapes on the real keras: after each call of a decomon layer on data, and for models converted symbolically."""
import importlib

from oracle.e2e import *

CASES.clear()
INNER = []
for k in (4, 5, 6, 7, 8, 9, 11, 12, 13):
    CASES.clear()
    importlib.import_module(f"oracle.o{k:02d}")
    INNER += CASES
CASES.clear()


def subclasses(c):
    return {c} | {d for s in c.__subclasses__() for d in subclasses(s)}


def hooked(f):
    """compare the announced shapes, for known and unknown batch sizes, with those of the tensors, for every outermost call"""

    def run(rng):
        from decomon.backward_layers.core import BackwardLayer
        from decomon.layers.core import DecomonLayer

        depth, undo = [0], []

        def wrap(cls, orig):
            def call(self, inputs, *a, **k):
                depth[0] += 1
                try:
                    out = orig(self, inputs, *a, **k)
                finally:
                    depth[0] -= 1
                ts = list(out) if isinstance(out, (list, tuple)) else [out]
                if depth[0] == 0 and not isinstance(ts[0], keras().KerasTensor) and all(hasattr(t, "shape") for t in inputs):
                    ins = [tuple(t.shape) for t in inputs]
                    if len(ins) > 1 and any(len(a) == len(b) for a, b in zip(ins[-2:-1], ins[-1:])) and isinstance(self, DecomonLayer) and identity(self, ins):
                        return out
                    want = [tuple(t.shape) for t in ts]
                    got = [tuple(s) for s in self.compute_output_shape(ins)]
                    TRACE["n"] += 1
                    TRACE["nontrivial"] = True
                    TRACE["crc"] = hash((cls.__name__, tuple(want))) & 0xFFFFFFFF
                    if len(got) != len(want) or any(len(g) != len(w) or any(a != b and not (a is None and k == 0) for k, (a, b) in enumerate(zip(g, w))) for g, w in zip(got, want)):
                        raise Violation(f"{cls.__name__}: announced shapes {got}, computed {want}", inputs=str(ins), config=str(self.get_config())[:1500])
                    if isinstance(self, DecomonLayer):
                        free = [tuple(s) for s in self.compute_output_shape([(None,) + s[1:] for s in ins])]
                        if free != [(None,) + w[1:] for w in want]:
                            raise Violation(f"{cls.__name__}: announced shapes {free} for an unknown batch size, computed {want}", inputs=str(ins), config=str(self.get_config())[:1500])
                return out

            return call

        for base in (DecomonLayer, BackwardLayer):
            for c in subclasses(base):
                if "call" in c.__dict__ and "Merge" not in c.__name__:
                    undo.append((c, c.__dict__["call"]))
                    c.call = wrap(c, c.__dict__["call"])
        try:
            return f(rng)
        finally:
            for c, o in undo:
                c.call = o

    return run


def identity(self, ins):
    """inputs in their compact form: weights with the rank of the offsets"""
    m = str(getattr(self.mode, "value", self.mode))
    return m != "ibp" and len(ins[1 + (m == "hybrid")]) == len(ins[-1])


def outputs(rng, dm, model):
    """symbolic outputs of the converted model and outputs on data"""
    sh = lambda ts: [tuple(t.shape) for t in (ts if isinstance(ts, (list, tuple)) else [ts])]
    sizes = [2 if k == 0 else int(d) for k, d in enumerate(dm.inputs[0].shape)]
    got = sh(dm.outputs)
    want = sh(dm(tt(np.zeros(sizes))))
    TRACE["n"] += 1
    TRACE["nontrivial"] = True
    if len(got) != len(want) or any(len(g) != len(w) or any(a != b and a is not None for a, b in zip(g, w)) for g, w in zip(got, want)):
        raise Violation(f"converted model: announced shapes {got}, computed {want}", config=str([l.get_config() for l in model.layers])[:3000])


ALL = {**SINGLE, **MERGES, "nested": nested, "two outputs": two_outputs, "softmax": soft, "max pooling": maxpool}
for n, a in ALL.items():
    for m in METHODS:
        if m.startswith("forward") or n not in ("merge", "residual", "max pooling", "shared"):
            CASES.append((f"{n} {m}", run_clone(f"{n} {m}", a, m, slack=1e-3, hook=outputs, npts=1)))
for n, f in INNER:
    # normalize=True of Dot is ignored (known finding of C09); the torch backend pads the wrong axis of strided "same" windows
    if not n.startswith("Dot normalize") and not ("same" in n and "strides (2" in n):
        CASES.append((n, hooked(f)))
