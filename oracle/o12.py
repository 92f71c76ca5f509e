from oracle.lib import *


# the backward convolution casts the kernel to float32
SLACK = lambda name: 1e-4 if name.startswith("Conv2D") else 0.0


def lin(name, make, yshape, modes=("hybrid", "ibp", "affine")):
    """backward layer of a linear keras layer: exact affine form, from the keras layer or from its decomon version"""
    for mode in modes:
        for src in ("keras", "decomon"):

            def run(rng, mode=mode, src=src):
                from decomon.backward_layers.convert import to_backward
                from decomon.core import get_affine, get_ibp
                from decomon.layers.convert import to_decomon

                ys = yshape(rng) if callable(yshape) else yshape
                dom = Dom(rng, ("box", "ball_2")[int(rng.integers(2))], n=int(rng.integers(1, 4)), batch=int(rng.integers(1, 3)))
                kl = keras_built(make(rng), ys, rng)
                r = Relax(rng, dom, ys, mode)
                L = kl
                if src == "decomon":
                    L = to_decomon(kl, dom.n, perturbation_domain=dom.domain, ibp=get_ibp(mode), affine=get_affine(mode))
                B = to_backward(L, mode=mode, perturbation_domain=dom.domain)
                ins = r.inputs()
                if src == "keras" and len(ys) > 1 and rng.random() < 0.5:
                    # as crown gives them: the axes of the value are flattened
                    import keras.ops as K

                    ins = [t if mode != "ibp" and j == 0 else K.reshape(t, tuple(t.shape[: len(t.shape) - len(ys)]) + (-1,)) for j, t in enumerate(ins)]
                out = B(ins)
                for p, y in r.pts:
                    y = np.where(np.isnan(y), 0.0, y)
                    z = nn(kl(tt(y), training=False) if "training" in kl.call.__code__.co_varnames else kl(tt(y)))
                    check_backward(out, y, z, name, True, SLACK(name), **r.data())

            CASES.append((f"{name} {mode} from {src}", run))


def K_():
    return keras().layers


i = lambda rng, a, b: int(rng.integers(a, b + 1))
shp = lambda rank: lambda rng: tuple(i(rng, 1, 3) for _ in range(rank))
for ub in (True, False):
    for rank in (1, 2, 3):
        lin(f"Dense {'bias' if ub else 'no bias'} rank {rank}", lambda rng, ub=ub: K_().Dense(i(rng, 1, 3), use_bias=ub), shp(rank))
for df in ("channels_last", "channels_first"):
    im = lambda rng, df=df: (i(rng, 3, 4), i(rng, 3, 4), i(rng, 1, 2)) if df == "channels_last" else (i(rng, 1, 2), i(rng, 3, 4), i(rng, 3, 4))
    for kw in (dict(kernel_size=(2, 2)), dict(kernel_size=(2, 3)), dict(kernel_size=(2, 2), strides=(2, 1)), dict(kernel_size=(3, 3), padding="same"), dict(kernel_size=(2, 2), use_bias=False),
               dict(kernel_size=(2, 2), dilation_rate=(2, 2)), dict(kernel_size=(3, 3), strides=(2, 2), padding="same")):
        lin(f"Conv2D {df} {kw}", lambda rng, kw=kw, df=df: K_().Conv2D(i(rng, 1, 2), data_format=df, **kw), im, modes=("hybrid", "ibp"))
    for rank in (1, 2, 3):
        lin(f"Flatten {df} rank {rank}", lambda rng, df=df: K_().Flatten(data_format=df), shp(rank))
for rank, axis in ((1, -1), (2, -1), (3, -1), (3, 1), (2, 1)):
    for c in (True, False):
        for s in (True, False):
            lin(f"BatchNormalization rank {rank} axis {axis} center={c} scale={s}", lambda rng, a=axis, c=c, s=s: K_().BatchNormalization(axis=a, center=c, scale=s), shp(rank))
for p in ((1,), (2, 1), (1, 2), (3, 1, 2), (2, 3, 1), (1, 3, 2)):
    lin(f"Permute {p}", lambda rng, p=p: K_().Permute(p), shp(len(p)))
for frm, to in (((2, 6), (3, 4)), ((2, 6), (12,)), ((12,), (2, 3, 2)), ((2, 6), (-1, 4))):
    lin(f"Reshape {frm} to {to}", lambda rng, to=to: K_().Reshape(to), frm)
for rank in (1, 2, 3):
    lin(f"Dropout rank {rank}", lambda rng: K_().Dropout(0.3), shp(rank))
    lin(f"Activation linear rank {rank}", lambda rng: K_().Activation("linear"), shp(rank))
