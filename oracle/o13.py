"""Backward activation layers: affine forms in the layer's input that enclose the activation for every value the relaxation allows."""
from oracle.lib import *
from oracle.o07 import FUN

CASES.clear()

FUNS = dict(FUN, relu=lambda y: np.maximum(y, 0))
SLOPES = ("volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb")
# (softplus rejects the adaptative slope with a ValueError)


def one(name, slope, finetune, rank, mode, src):
    def run(rng):
        from decomon.backward_layers.backward_layers import BackwardActivation
        from decomon.core import get_affine, get_ibp
        from decomon.layers.convert import to_decomon

        ys = tuple(int(rng.integers(1, 4)) for _ in range(rank))
        dom = Dom(rng, ("box", "ball_2")[int(rng.integers(2))], n=int(rng.integers(1, 4)), batch=int(rng.integers(1, 3)))
        L = keras_built(keras().layers.Activation(name), ys)
        r = Relax(rng, dom, ys, mode)
        if src == "decomon":
            L = to_decomon(L, dom.n, perturbation_domain=dom.domain, ibp=get_ibp(mode), affine=get_affine(mode))
        B = BackwardActivation(L, slope=slope, finetune=finetune, mode=mode, perturbation_domain=dom.domain)
        out = B(r.inputs())
        if finetune:
            for v in B.trainable_weights:
                v.assign(rng.uniform(0, 1, size=v.shape) if rng.random() < 0.8 else rng.integers(0, 2, size=v.shape).astype(float))
            out = B(r.inputs())
        for p, y in r.pts:
            check_backward(out, y, FUNS[name](y), name, False, 2e-6, **r.data())

    return run


for mode in ("hybrid", "ibp", "affine"):
    for rank in (1, 2, 3):
        for ft in (False, True):
            for s in SLOPES:
                CASES.append((f"relu {s}{' finetune' if ft else ''} rank {rank} {mode}", one("relu", s, ft, rank, mode, "keras")))
                if s != "adaptative-slope":
                    CASES.append((f"softplus {s}{' finetune' if ft else ''} rank {rank} {mode}", one("softplus", s, ft, rank, mode, "keras")))
            for n in ("sigmoid", "tanh", "softsign"):
                CASES.append((f"{n}{' finetune' if ft else ''} rank {rank} {mode}", one(n, "volume-slope", ft, rank, mode, "keras")))
        for n in ("relu", "sigmoid", "softsign"):
            CASES.append((f"{n} rank {rank} {mode} from decomon", one(n, "volume-slope", False, rank, mode, "decomon")))
