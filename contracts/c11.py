"""Max pooling (DecomonMaxPooling2D): a relaxation of y in, a relaxation of max_pool(y) out.
The not-fast path is checked against the contract of max_ (proved in C10)."""
from engine.tensor import con, dim
from .lib import *

POOLS = [((2, 2), None), ((2, 1), None), ((1, 3), (1, 1)), ((3, 2), (2, 1)), ((2, 2), (1, 1)), ((3, 3), (2, 2)), ((1, 2), (1, 3))]
F = "decomon.layers.maxpooling.DecomonMaxPooling2D."


def run(mode, fast, df, ps, st, pad, hw, ch, n_in=None):
    def r(ctx):
        from decomon.layers.maxpooling import DecomonMaxPooling2D

        sc = Scene(ctx, n_in=(con(n_in),) if n_in else None)
        dom = sc.domain()
        sp = [(dim("h"),), (dim("w"),)] if hw is None else [(con(k),) if k > 1 else () for k in hw]
        c = ch if not isinstance(ch, int) else (con(ch),) if ch > 1 else ()
        c = (dim("c"),) if c is None else c
        yd = [c] + sp if df == "channels_first" else sp + [c]
        inputs, y = sc.relaxation(mode, yd)
        if not fast:
            sc.op_contract("decomon.layers.maxpooling", "max_", lambda t, *a, **k: K.max(t, axis=a[0] if a else k.get("axis", -1)), 1, kwspec=True)
        kw = {} if df is None else {"data_format": df}
        layer = DecomonMaxPooling2D(pool_size=ps, strides=st, padding=pad, fast=fast, mode=mode, perturbation_domain=dom, **kw)
        outs = layer(inputs)
        z = K.max_pool(y, ps, st, pad, df)
        sc.check_relaxation(list(outs), mode, z, x=inputs[0] if mode != "ibp" else None)

    return r


def cases():
    out = []
    for mode in MODES:
        for df in ("channels_last", "channels_first"):
            for ps, st in POOLS:
                t = f"{df} {mode} pool {ps} strides {st or ps}"
                for pad in ("valid", "same"):
                    out.append(case(f"fast {t} {pad}", run(mode, True, df, ps, st, pad, None if pad == "valid" else (4, 5), None, n_in=2), [F + "call", F + "_pooling_function_fast"]))
                    for hw in [None] if pad == "valid" else [(3, 5), (4, 2)]:
                        for ch in (1, 2) if hw is None or hw[0] == 3 else (2,):
                            out.append(case(f"precise {t} {pad}{'' if hw is None else ' input %dx%d' % hw} {ch} channels", run(mode, False, df, ps, st, pad, hw, ch), [F + "call", F + "_pooling_function_not_fast"]))
    return out
