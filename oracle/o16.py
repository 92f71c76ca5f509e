"""Forward clones of whole models on the real keras."""
from oracle.e2e import *

CASES.clear()
FORWARD = ("forward-ibp", "forward-affine", "forward-hybrid")
ALL = {**SINGLE, **MERGES, "nested": nested, "same names": same_names, "two outputs": two_outputs, "outputs at several depths": inner_outputs, "softmax": soft, "layers elsewhere": elsewhere, "max pooling": maxpool}
SLACK = {"conv": 1e-4, "max pooling": 1e-4}
for n, a in ALL.items():
    for m in FORWARD:
        CASES.append((f"{n} {m}", run_clone(f"{n} {m}", a, m, slack=SLACK.get(n, 2e-6))))
for m in FORWARD:
    for final in ((True, True), (True, False), (False, True)):
        for n in ("residual", "two outputs"):
            CASES.append((f"{n} {m} final {final}", run_clone(f"{n} {m} final {final}", ALL[n], m, final=final)))
    for s in ("volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb"):
        CASES.append((f"dense {m} {s}", run_clone(f"dense {m} {s}", seq_dense, m, slope=s)))
    CASES.append((f"dense {m} finetune", run_clone(f"dense {m} finetune", seq_dense, m, finetune=True)))
