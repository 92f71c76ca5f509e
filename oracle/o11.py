from oracle.lib import *


def pool_case(name, fast, df, pool_size, strides, padding):
    def call(rng, dom, mode, ins, shapes):
        from decomon.layers.maxpooling import DecomonMaxPooling2D

        L = DecomonMaxPooling2D(pool_size=pool_size, strides=strides, padding=padding, data_format=df, fast=fast, mode=mode, perturbation_domain=dom)
        return L(ins[0])

    def f(y):
        import keras

        return nn(keras.layers.MaxPooling2D(pool_size=pool_size, strides=strides, padding=padding, data_format=df)(tt(y)))

    def sh(rng):
        h, w, c = [int(rng.integers(3, 6)) for _ in range(2)] + [int(rng.integers(1, 3))]
        return [(h, w, c) if df == "channels_last" else (c, h, w)]

    multi_cases(name, call, f, sh)


for df in ("channels_last", "channels_first"):
    for ps, st, pad in (((2, 2), None, "valid"), ((2, 1), None, "valid"), ((1, 3), (1, 1), "valid"), ((3, 2), (2, 1), "valid"), ((2, 2), (1, 1), "same"), ((3, 3), (2, 2), "same")):
        for fast in (True, False):
            pool_case(f"MaxPooling2D {'fast ' if fast else ''}{df} pool {ps} strides {st} {pad}", fast, df, ps, st, pad)
