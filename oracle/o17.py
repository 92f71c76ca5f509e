"""Crown clones of whole models on the real keras."""
from oracle.e2e import *

CASES.clear()
CROWN = ("crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid")


def several_axes(rng):
    L = KL()
    x = L.Input((i(rng, 1, 3),))
    y = L.Reshape((2, 3))(L.Dense(6, activation="relu")(x))
    y = L.Dense(i(rng, 1, 3), activation=("tanh", "relu", None)[i(rng, 0, 2)])(y)
    y = L.Permute((2, 1))(y)
    y = L.Dropout(0.2)(L.BatchNormalization()(y))
    return keras().Model(x, L.Dense(2)(L.Flatten()(y)) if rng.random() < 0.7 else L.Activation("relu")(y))


def tree(rng):
    """chains with branches to several outputs"""
    L = KL()
    n = i(rng, 1, 3)
    x = L.Input((n,))
    ts = [x]
    used = set()
    for _ in range(i(rng, 2, 5)):
        k = i(rng, 0, len(ts) - 1)
        used.add(k)
        ts.append((L.Dense(n) if rng.random() < 0.6 else L.Activation("relu"))(ts[k]))
    outs = [t for k, t in enumerate(ts) if k not in used]
    return keras().Model(x, outs if len(outs) > 1 else outs[0])


ALL = {"dense": seq_dense, "conv": conv, "affine layers": affine_layers, "identity": identity, "smooth": smooth, "nested": nested, "two outputs": two_outputs, "softmax": soft,
       "layers elsewhere": elsewhere, "several axes": several_axes, "tree": tree}
SLACK = {"conv": 1e-4}
for n, a in ALL.items():
    for m in CROWN:
        CASES.append((f"{n} {m}", run_clone(f"{n} {m}", a, m, slack=SLACK.get(n, 2e-6))))
for m in CROWN:
    for final in ((True, True), (True, False), (False, True)):
        CASES.append((f"dense {m} final {final}", run_clone(f"dense {m} final {final}", seq_dense, m, final=final)))
    for s in ("volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb"):
        CASES.append((f"dense {m} {s}", run_clone(f"dense {m} {s}", seq_dense, m, slope=s)))
    CASES.append((f"dense {m} finetune", run_clone(f"dense {m} finetune", seq_dense, m, finetune=True)))
    for n in ("dense", "softmax"):
        CASES.append((f"{n} {m} bounds given on the output", run_clone(f"{n} {m} back", ALL[n], m, back=True)))
