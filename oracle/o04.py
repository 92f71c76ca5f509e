from oracle.lib import *


def mk(ub):
    def make(rng, ys, dom, mode, dc):
        from decomon.layers.decomon_layers import DecomonDense

        l = DecomonDense(units=int(rng.integers(1, 4)), use_bias=ub, perturbation_domain=dom, mode=mode, dc_decomp=dc)
        build(l, ys, 3, mode, dc)
        set_weights(rng, l)
        return l

    return make


def f(layer):
    k = nn(layer.kernel)
    b = nn(layer.bias) if layer.use_bias else 0.0
    return lambda y: y @ k + b


for ub in (True, False):
    for rank in (1, 2, 3):
        forward_cases(f"Dense {'bias' if ub else 'no bias'} rank {rank}", mk(ub), f,
                      lambda rng, rank=rank: tuple(int(rng.integers(1, 4)) for _ in range(rank)), dc=True, elementwise=False)
