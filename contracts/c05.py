"""DecomonConv2D: the relaxation computed for kernel/bias encloses conv(y, kernel) + bias."""
from engine.tensor import con, dim
from .lib import *

CONFIGS = []
for df in ("channels_last", "channels_first"):
    CONFIGS += [
        dict(kernel_size=(2, 2), data_format=df),
        dict(kernel_size=(3, 2), data_format=df, strides=(2, 1)),
        dict(kernel_size=(2, 3), data_format=df, padding="same"),
        dict(kernel_size=(1, 1), data_format=df, use_bias=False),
        dict(kernel_size=(2, 2), data_format=df, dilation_rate=(2, 2)),
        dict(kernel_size=(3, 3), data_format=df, strides=(2, 2), padding="same"),
    ]


def conv(cfg):
    def mk(**k):
        from decomon.layers.decomon_layers import DecomonConv2D

        return DecomonConv2D(filters=dsize((dim("filters"),)), **cfg, **k)

    return mk


def spec(layer, y):
    z = K.conv(y, layer.kernel, layer.strides, layer.padding, layer.data_format, layer.dilation_rate)
    if layer.use_bias:
        z = z + K.reshape(layer.bias, (1, 1, 1, -1) if layer.data_format == "channels_last" else (1, -1, 1, 1))
    return z


def cases():
    F = ["decomon.layers.decomon_layers.DecomonConv2D.build", "decomon.layers.decomon_layers.DecomonConv2D.call"]
    out = []
    for cfg in CONFIGS:
        def yd(cfg=cfg):
            s = [(dim("hh"),), (dim("ww"),)]
            c = [(dim("c"),)]
            return s + c if cfg["data_format"] == "channels_last" else c + s

        for mode in MODES:
            for dc in (False, True):
                out.append(case(f"Conv2D {cfg} {nm(mode, dc)}", forward(conv(cfg), spec, yd, mode, dc), F))
    return out
