"""Random models and domains for the numpy-level functions of decomon.wrapper."""
from oracle.e2e import *

CASES.clear()


def net(rng, n_in=None, outs=None, in_axes=1, out_axes=1):
    """relu networks; the arrays of the user may have several axes that the model takes flattened"""
    L = KL()
    keras().backend.clear_session()
    ish = (n_in or i(rng, 1, 3),) + tuple(i(rng, 1, 2) for _ in range(in_axes - 1))
    ls = [L.Input((int(np.prod(ish)),))]
    ls += [L.Dense(i(rng, 2, 5), activation="relu") for _ in range(i(rng, 1, 2))]
    if out_axes > 1:
        k = i(rng, 1, 3)
        ls += [L.Dense(2 * k), L.Reshape((2, k))]
        ls.append(L.Activation("relu") if rng.random() < 0.5 else L.Dense(outs or i(rng, 1, 3)))
    else:
        ls.append(L.Dense(outs or i(rng, 1, 4)))
    m = keras().Sequential(ls)
    initw(rng, m)
    m.user_shape = ish
    return m


FWD = ("forward-ibp", "forward-affine", "forward-hybrid")
CRW = ("crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid")


class BoxIn:
    def __init__(self, rng, m, B=None):
        self.B = B or i(rng, 1, 5)
        self.sh = m.user_shape
        a, b = rnd(rng, self.B, *self.sh), rnd(rng, self.B, *self.sh)
        self.lo, self.hi = np.minimum(a, b), np.maximum(a, b)
        self.rng = rng

    def points(self, k=30):
        for j in range(k):
            t = self.rng.random((self.B,) + self.sh)
            yield self.lo + (np.round(t) if j % 2 else t) * (self.hi - self.lo)

    def data(self):
        return dict(x_min=self.lo, x_max=self.hi)


class BallIn:
    def __init__(self, rng, m, p, eps, B=None):
        self.B = B or i(rng, 1, 5)
        self.sh = m.user_shape
        self.x = rnd(rng, self.B, *self.sh)
        self.p, self.eps, self.rng = p, eps, rng

    def points(self, k=30):
        rng = self.rng
        n = int(np.prod(self.sh))
        for j in range(k):
            d = rng.normal(size=(self.B, n))
            if self.p == np.inf:
                d = np.sign(d) if j % 2 else np.clip(d, -1, 1)
            elif j % 3 == 0 or self.p == 2:
                d = d / np.maximum(np.linalg.norm(d, ord=self.p, axis=-1, keepdims=True), 1e-300)
            else:
                e = np.zeros_like(d)
                e[np.arange(self.B), rng.integers(0, n, self.B)] = rng.choice([-1, 1], self.B)
                d = e
            yield self.x + self.eps * d.reshape(self.x.shape)

    def data(self):
        return dict(x=self.x, eps=self.eps, p=self.p)


def values(m, pts):
    return [nn(m(tt(p.reshape((len(p), -1))), training=False)) for p in pts]


def ws(m):
    return dict(weights=[nn(w) for w in m.weights], layers=str([l.get_config() for l in m.layers])[:1500])


def sizes(rng, d):
    return -1 if rng.random() < 0.4 else i(rng, 1, d.B + 1)
