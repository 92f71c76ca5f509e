"""Smooth activations: sigmoid, tanh, softsign, softplus, exponential, softmax (forward layers) and their hulls."""
from oracle.lib import *


def act(name, slope="volume-slope"):
    def make(rng, ys, dom, mode, dc):
        from decomon.layers.decomon_layers import DecomonActivation

        l = DecomonActivation(name, perturbation_domain=dom, mode=mode, dc_decomp=dc, slope=slope)
        return build(l, ys, 3, mode, dc)

    return make


def softmax(y):
    e = np.exp(y - np.nanmax(y, -1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


FUN = {
    "sigmoid": lambda y: 1 / (1 + np.exp(-y)),
    "tanh": np.tanh,
    "softsign": lambda y: y / (1 + np.abs(y)),
    "softplus": lambda y: np.logaddexp(0, y),
    "exponential": np.exp,
    "softmax": softmax,
}
SLOPES = ("volume-slope", "same-slope", "zero-lb", "one-lb")

for n in ("sigmoid", "tanh", "softsign", "exponential", "softmax"):
    forward_cases(n, act(n), lambda l, n=n: FUN[n], lambda rng, n=n: tuple(int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 3)))),
                  elementwise=n != "softmax", modes=("hybrid", "ibp", "affine"))
for s in SLOPES:
    forward_cases(f"softplus {s}", act("softplus", s), lambda l: FUN["softplus"], lambda rng: (int(rng.integers(1, 4)),))


def prime(n):
    from decomon import utils as U

    return {"sigmoid": U.sigmoid_prime, "tanh": U.tanh_prime, "softsign": U.softsign_prime}[n]


def intervals(rng, k):
    """bounds of every relative position: negative, positive, crossing, degenerate, one end at zero"""
    a, b = rng.normal(size=k) * rng.choice([0.1, 1, 4]), rng.normal(size=k) * rng.choice([0.1, 1, 4])
    l, u = np.minimum(a, b), np.maximum(a, b)
    m = rng.integers(0, 8, size=k)
    u = np.where(m == 0, 0.0, u)
    l = np.where(m == 0, -np.abs(l), l)
    l = np.where(m == 1, 0.0, l)
    u = np.where(m == 1, np.abs(u), u)
    u = np.where(m == 2, l, u)
    l = np.where(m == 3, -np.abs(l), l)
    u = np.where(m == 3, np.abs(u), u)
    return l, u


def hull(n):
    @case(f"hull {n}")
    def f(rng):
        import keras.ops as K
        from decomon import utils as U

        k = 40
        l, u = intervals(rng, k)
        U_, L_ = tt(u[None]), tt(l[None])
        if n == "softplus":
            s = str(rng.choice(SLOPES))
            kw = {}
            if rng.random() < 0.5:
                kw["finetune"] = [tt(rng.choice([0, 1, rng.random()], size=k)) for _ in range(2)]
            out = U.get_linear_softplus_hull(U_, L_, slope=s, **kw)
        elif n == "sigmoid":
            out = U.get_linear_hull_sigmoid(U_, L_, slope="volume-slope")
        elif n == "tanh":
            out = U.get_linear_hull_tanh(U_, L_, slope="volume-slope")
        else:
            out = U.get_linear_hull_s_shape([U_, L_], func=K.softsign, f_prime=prime(n), mode="ibp")
        wu, bu, wl, bl = [nn(o)[0] for o in out]
        for t in np.linspace(0, 1, 41):
            x = l + t * (u - l)
            v = FUN[n](x)
            d = dict(lower=l, upper=u, t=x)
            leq(v, wu * x + bu, f"{n} above its upper hull", 1e-7, **d)
            leq(wl * x + bl, v, f"{n} below its lower hull", 1e-7, **d)
        leq(0 * wu, wu, "upper slope negative")
        leq(0 * wl, wl, "lower slope negative")


for n in ("sigmoid", "tanh", "softsign", "softplus"):
    hull(n)
