from oracle.lib import *

SLOPES = ("volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb")


def mk(slope, ft):
    def make(rng, ys, dom, mode, dc):
        from decomon.layers.decomon_layers import DecomonActivation

        l = DecomonActivation("relu", perturbation_domain=dom, mode=mode, dc_decomp=dc, slope=slope, finetune=ft)
        build(l, ys, 3, mode, dc)
        for v in l.weights:
            v.assign(rng.random(tuple(v.shape)).round(int(rng.integers(0, 3))))
        return l

    return make


for s in SLOPES:
    for ft in (False, True):
        forward_cases(f"relu {s}{' finetune' if ft else ''}", mk(s, ft), lambda l: (lambda y: np.maximum(y, 0)),
                      lambda rng: tuple(int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 3)))), dc=True)
