from oracle.lib import *


def mk(padding, strides, dil, ub):
    def make(rng, ys, dom, mode, dc):
        from decomon.layers.decomon_layers import DecomonConv2D

        l = DecomonConv2D(filters=int(rng.integers(1, 3)), kernel_size=(int(rng.integers(1, 4)), int(rng.integers(1, 4))),
                          strides=strides, padding=padding, dilation_rate=dil, use_bias=ub, perturbation_domain=dom, mode=mode, dc_decomp=dc)
        build(l, ys, 3, mode, dc)
        set_weights(rng, l)
        return l

    return make


def f(layer):
    import keras

    k = keras.layers.Conv2D(filters=layer.filters, kernel_size=layer.kernel_size, strides=layer.strides, padding=layer.padding,
                            dilation_rate=layer.dilation_rate, use_bias=layer.use_bias)

    def g(y):
        if not k.built:
            k.build(y.shape)
            k.set_weights([nn(w) for w in ([layer.kernel] + ([layer.bias] if layer.use_bias else []))])
        return nn(k(tt(y)))

    return g


for pad in ("valid", "same"):
    for st, di in (((1, 1), (1, 1)), ((2, 2), (1, 1)), ((1, 1), (2, 2))):
        for ub in (True, False):
            if di != (1, 1) and not ub:
                continue
            forward_cases(f"Conv2D {pad} strides {st} dilation {di} {'bias' if ub else 'no bias'}", mk(pad, st, di, ub), f,
                          lambda rng: (int(rng.integers(5, 7)), int(rng.integers(5, 7)), int(rng.integers(1, 3))), dc=True, elementwise=False)
