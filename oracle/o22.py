"""Tuning coefficients of real decomon models: projected random vectors keep the bounds sound, an optimization step with frozen weights leaves
the network as it is, freezing and resetting do what they say."""
from oracle.e2e import *

CASES.clear()


def is_alpha(v):
    return v.constraint is not None


def step(rng, dm, x, lr):
    import keras

    ws = dm.trainable_weights
    if not ws:
        return
    outs = dm(tt(x))
    loss = sum((o ** 2).sum() for o in outs)
    dm.zero_grad()
    if not loss.requires_grad:
        return
    loss.backward()
    pairs = [(w.value.grad, w) for w in ws if w.value.grad is not None]
    if pairs:
        opt = keras.optimizers.Adam(learning_rate=lr)
        opt.build([w for _, w in pairs])
        opt.apply([g for g, _ in pairs])


def hook(rng, dm, model):
    import torch

    for w in dm.trainable_weights:
        if is_alpha(w):
            a = nn(w)
            if a.min() < 0 or a.max() > 1:
                raise Violation("initial tuning coefficient outside [0, 1]", coefficient=a)
    n = [v.shape[1:] for v in model.inputs][0][0]
    x = dm.inputs[0].shape
    data = rnd(rng, 1, *[d for d in x[1:]])
    if len(x) == 3:
        data = np.stack([data.min(1), data.max(1)], 1)
    ids = lambda: [v.path for v in dm.trainable_weights]
    all_, alphas = ids(), [v.path for v in dm.trainable_weights if is_alpha(v)]
    net = [p for p in all_ if p not in alphas]
    before = [nn(w) for w in model.weights]
    ref = [nn(o) for o in dm(tt(data))]
    dm.freeze_weights()
    if ids() != alphas:
        raise Violation("freeze_weights: the trainable variables are not the coefficients", trainable=str(ids()), coefficients=str(alphas))
    step(rng, dm, data, float(rng.choice([0.01, 0.3, 3.0])))
    for v, w in zip(model.weights, before):
        close(nn(v), w, "weights of the network after an optimization step with frozen weights", 0)
    dm.reset_finetuning()
    for a, b in zip([nn(o) for o in dm(tt(data))], ref):
        close(a, b, "bounds after a reset", 1e-9)
    dm.freeze_alpha()
    if ids():
        raise Violation("freeze_alpha and freeze_weights: some variables are trainable", trainable=str(ids()))
    dm.unfreeze_weights()
    if ids() != net:
        raise Violation("freeze_alpha: the trainable variables are not the weights", trainable=str(ids()), weights=str(net))
    dm.unfreeze_alpha()
    if ids() != all_:
        raise Violation("once unfrozen: not all the variables are trainable", trainable=str(ids()), all=str(all_))
    for w in dm.trainable_weights:
        if is_alpha(w):
            w.assign(w.constraint(tt(rng.normal(0.5, rng.choice([0.3, 2.0]), tuple(w.shape)))))
            a = nn(w)
            if a.min() < 0 or a.max() > 1:
                raise Violation("projected tuning coefficient outside [0, 1]", coefficient=a)


def grid(rng):
    import decomon.layers.utils as LU

    w = rnd(rng, *[i(rng, 1, 4) for _ in range(i(rng, 2, 3))]) * 2
    v = nn(LU.ClipAlphaGrid()(tt(w)))
    if v.min() < 0 or v.sum(0).max() > 1 + 1e-9:
        raise Violation("projected grid coefficients: negative or with a sum above one", proposed=w, projected=v)


for n, a in {"dense": seq_dense, "conv": conv, "smooth": smooth, "residual": residual, "affine layers": affine_layers}.items():
    for m in ("forward-affine", "forward-hybrid", "crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid"):
        if n in ("residual", "affine layers") and m.startswith("crown"):
            continue
        CASES.append((f"{n} {m}", run_clone(f"{n} {m}", a, m, finetune=True, hook=hook, slack=1e-4 if n == "conv" else 2e-6)))
for s in ("adaptative-slope", "same-slope", "zero-lb", "one-lb"):
    for m in ("forward-hybrid", "crown"):
        CASES.append((f"dense {m} {s}", run_clone(f"dense {m} {s}", seq_dense, m, slope=s, finetune=True, hook=hook)))
CASES.append(("grid", grid))
