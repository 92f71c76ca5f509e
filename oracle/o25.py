"""Point domains on the real keras: bounds equal to the value, for models and for single layers."""
import importlib

from oracle.e2e import *

MODULES = [importlib.import_module(f"oracle.o{k:02d}") for k in (4, 5, 6, 7, 8, 9, 10, 11)]
INNER = [c for c in CASES]
CASES.clear()


def at_a_point(f):
    def run(rng):
        POINT["on"] = True
        try:
            return f(rng)
        finally:
            POINT["on"] = False

    return run


ALL = {**SINGLE, **MERGES, "nested": nested, "two outputs": two_outputs, "softmax": soft, "layers elsewhere": elsewhere, "max pooling": maxpool}
ALL["smooth"] = lambda rng: seq_dense(rng, acts=("sigmoid", "tanh", "softsign")[i(rng, 0, 2) :][:1], depth=i(rng, 1, 2))
SLACK = {"conv": 1e-4, "max pooling": 1e-4, "smooth": 1e-4}
for n, a in ALL.items():
    for m in METHODS:
        if m.startswith("forward") or n not in ("merge", "residual", "max pooling", "shared"):
            CASES.append((f"{n} {m}", at_a_point(run_clone(f"{n} {m} at a point", a, m, slack=SLACK.get(n, 2e-6)))))
for n, f in INNER:
    # the lower affine bound of softplus is not tangent; normalize=True of Dot is ignored (known finding of C09)
    if " dc" not in n and not (n.startswith("softplus") and not n.endswith("ibp")) and not n.startswith("Dot normalize"):
        CASES.append((n, at_a_point(f)))
