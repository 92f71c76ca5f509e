"""DecomonDense: the relaxation computed for kernel/bias encloses y.kernel + bias (and h+g is preserved)."""
from engine.tensor import con, dim
from .lib import *


def dense(use_bias):
    def mk(**k):
        from decomon.layers.decomon_layers import DecomonDense

        return DecomonDense(units=_u(), use_bias=use_bias, **k)

    return mk


def _u():
    return dsize((dim("units"),))


def spec(use_bias):
    def s(layer, y):
        z = K.matmul(y, layer.kernel)
        return z + layer.bias if use_bias else z

    return s


def cases():
    F = ["decomon.layers.decomon_layers.DecomonDense.build", "decomon.layers.decomon_layers.DecomonDense.call",
         "decomon.core.InputsOutputsSpec.get_fullinputs_from_inputsformode",
         "decomon.core.InputsOutputsSpec.extract_outputsformode_from_fulloutputs"]
    out = []
    for ub in (True, False):
        for mode in MODES:
            for dc in (False, True):
                for rank in (1, 2, 3):
                    yd = lambda rank=rank: [(dim(f"s{i}"),) for i in range(rank - 1)] + [(dim("c"),)]
                    out.append(case(f"Dense {'bias' if ub else 'no bias'} rank {rank} {nm(mode, dc)}",
                                    forward(dense(ub), spec(ub), yd, mode, dc), F))
                if mode != "ibp":
                    yd = lambda: [(dim("c"),)]
                    out.append(case(f"Dense {'bias' if ub else 'no bias'} {nm(mode, dc, True)}",
                                    forward(dense(ub), spec(ub), yd, mode, dc, True), F))
    return out
