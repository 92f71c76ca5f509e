"""A stand-in for the keras package (the dependency), so that the real decomon modules can be
imported and executed on symbolic tensors.  Every class / function here is an *assumed contract*
of keras; nothing of decomon is reproduced here."""
import collections
import enum
import sys
import types
import itertools

import numpy as _np

from . import kops
from . import terms as T
from .tensor import Tensor, Unsupported, ShapeError, as_tensor, declare, dim_of_int, dsize

_uid = itertools.count()


class Variable(Tensor):
    def __init__(self, shape, name=None, trainable=True, dtype="float32", constraint=None, value=None, init=None):
        nm = f"{name or 'var'}~{next(_uid)}"
        self.wname = name
        t = declare(nm, *[dim_of_int(s) for s in shape]) if value is None else as_tensor(value)
        super().__init__(t.dims, t.at, dtype=dtype or "float32", name=nm)
        self.name = name
        self.path = nm
        self.trainable = trainable
        self.constraint = constraint
        self.initializer = init
        self.assigned = False

    def assign(self, v):
        self.assigned = True
        v = as_tensor(v)
        if v.shape != self.shape:
            raise ShapeError("assign: shapes differ")
        self._fn = v.at
        self._memo = {}

    @property
    def value(self):
        return Tensor(self.dims, self._fn, dtype=self.dtype)

    def numpy(self):
        return Tensor(self.dims, self._fn, dtype=self.dtype)


class KerasTensor:
    def __init__(self, shape, dtype="float32", sparse=False, name=None, **kw):
        self.shape = tuple(shape)
        self.dtype = dtype
        self.sparse = sparse
        self.name = name


class FUNC:
    """the functional API (graph of calls): switched on by the contracts on whole models"""

    on = False
    depth = 0
    names = {}
    batch = None

    @classmethod
    def reset(cls, on=False, batch=None):
        cls.on, cls.depth, cls.names, cls.batch = on, 0, {}, batch

    @classmethod
    def name(cls, c):
        import re

        n = re.sub("([a-z])([A-Z])", r"\1_\2", re.sub(r"\W+", "", re.sub("(.)([A-Z][a-z0-9]+)", r"\1_\2", c.__name__))).lower()
        k = cls.names.get(n, 0)
        cls.names[n] = k + 1
        return f"{n}_{k}" if k else n


KerasHistory = collections.namedtuple("KerasHistory", ["operation", "node_index", "tensor_index"])


def flat(x):
    if isinstance(x, (list, tuple)):
        return [t for v in x for t in flat(v)]
    if isinstance(x, dict):
        return [t for k in sorted(x) for t in flat(x[k])]
    return [x]


def history(t):
    return getattr(t, "_keras_history", None) or KerasHistory(None, 0, 0)


class Node:
    """one call of an operation"""

    def __init__(self, operation, call_args=(), call_kwargs=None, outputs=None, in_struct=None, out_struct=None):
        self.operation = operation
        self.input_tensors = [t for t in flat(list(call_args)) + flat(call_kwargs or {}) if isinstance(t, Tensor) and not isinstance(t, Variable)]
        self.outputs = [] if outputs is None else flat(outputs)
        self.call_args, self.call_kwargs, self.out_struct = call_args, call_kwargs or {}, outputs
        self.is_input = not self.input_tensors
        operation._inbound_nodes.append(self)
        for t in self.input_tensors:
            op = history(t).operation
            if op is not None:
                op._outbound_nodes.append(self)
        k = len(operation._inbound_nodes) - 1
        for i, t in enumerate(self.outputs):
            t._keras_history = KerasHistory(operation, k, i)

    @property
    def output_tensors(self):
        return self.outputs

    @property
    def parent_nodes(self):
        r = []
        for t in self.input_tensors:
            h = history(t)
            if h.operation is not None:
                r.append(h.operation._inbound_nodes[h.node_index])
        return r


def view(t):
    """the same value as a new tensor of the graph"""
    import copy

    t = copy.copy(as_tensor(t))
    t.__dict__.pop("_keras_history", None)
    return t


def restruct(x, f):
    if isinstance(x, (list, tuple)):
        return type(x)(restruct(v, f) for v in x)
    return f(x)


class Operation:
    def __init__(self, name=None, **kw):
        self.name = name or (FUNC.name(type(self)) if FUNC.on else type(self).__name__.lower())
        self._inbound_nodes = []
        self._outbound_nodes = []

    def _record(self, run, args, kwargs):
        """call run(); record it as a node when it is a call of the model under construction"""
        if not FUNC.on or FUNC.depth > 0 or not any(isinstance(t, Tensor) for t in flat(list(args))):
            FUNC.depth += 1
            try:
                return run()
            finally:
                FUNC.depth -= 1
        FUNC.depth += 1
        try:
            out = run()
        finally:
            FUNC.depth -= 1
        if any(not isinstance(t, Tensor) for t in flat(out)):
            return out
        out = restruct(out, view)
        Node(self, args, kwargs, out)
        return out

    def __call__(self, *a, **k):
        return self._record(lambda: self.call(*a, **k), a, k)

    def _attribute(self, name, ns):
        if not self._inbound_nodes:
            raise ValueError(f"The layer {self.name} has never been called and thus has no defined {ns}.")
        v = getattr(self._inbound_nodes[0], name)
        return v[0] if len(v) == 1 else v

    @property
    def input(self):
        if "_input_set" in self.__dict__:
            return self.__dict__["_input_set"]
        return self._attribute("input_tensors", "input")

    @input.setter
    def input(self, v):
        self.__dict__["_input_set"] = v

    @property
    def output(self):
        if "_output_set" in self.__dict__:
            return self.__dict__["_output_set"]
        return self._attribute("outputs", "output")

    @output.setter
    def output(self, v):
        self.__dict__["_output_set"] = v

    def get_config(self):
        return {"name": self.name}

    @classmethod
    def from_config(cls, config):
        return cls(**config)


class Tracker:
    def __init__(self, layer=None):
        self.layer = layer

    def untrack(self, v):
        if FUNC.on:
            self.layer._w = [w for w in self.layer._w if w is not v]


class InputSpec:
    def __init__(self, dtype=None, shape=None, ndim=None, max_ndim=None, min_ndim=None, axes=None, **kw):
        self.shape, self.ndim, self.max_ndim, self.min_ndim, self.axes = shape, ndim, max_ndim, min_ndim, axes


class Layer(Operation):
    def __init__(self, *, activity_regularizer=None, trainable=True, dtype=None, autocast=True, name=None, **kwargs):
        kwargs.pop("input_shape", None)
        kwargs.pop("input_dim", None)
        kwargs.pop("batch_input_shape", None)
        if kwargs:
            raise ValueError(f"Unrecognized keyword arguments passed to {type(self).__name__}: {kwargs}")
        Operation.__init__(self, name=name)
        self.built = False
        self.trainable = trainable
        self.dtype = "float32"
        self._w = []
        self.supports_masking = False
        self.input_spec = None
        self._tracker = Tracker(self)

    def __setattr__(self, k, v):
        if FUNC.on and isinstance(v, Variable) and "_w" in self.__dict__ and all(w is not v for w in self._w):
            if self.built:
                raise ValueError("You cannot add new elements of state (variables or sub-layers) to a layer that is already built.")
            self._w.append(v)
        object.__setattr__(self, k, v)

    def _flatten_layers(self, include_self=True, recursive=True):
        out = [self] if include_self else []
        sub = [o for o in self.operations if isinstance(o, Layer)] if isinstance(self, Model) else [v for v in self.__dict__.values() if isinstance(v, Layer)]
        for l in sub:
            out += [x for x in (l._flatten_layers() if recursive else [l]) if all(x is not y for y in out)]
        return out

    # weights (keras.src.layers.Layer: own variables, then those of the sub-layers; `_trainable_weights` means nothing in keras 3)
    @property
    def weights(self):
        out = []
        for l in self._flatten_layers():
            out += [w for w in l._w if all(w is not v for v in out)]
        return out

    @property
    def trainable_weights(self):
        return [w for w in self.weights if w.trainable] if self.trainable else []

    @property
    def non_trainable_weights(self):
        return [w for w in self.weights if not w.trainable] if self.trainable else self.weights

    variables = weights
    trainable_variables = trainable_weights
    non_trainable_variables = non_trainable_weights

    def get_weights(self):
        return [w.numpy() for w in self.weights]

    def set_weights(self, vals):
        if len(vals) != len(self.weights):
            raise ValueError("set_weights: number of weights")
        for w, v in zip(self.weights, vals):
            w.assign(v)

    def add_weight(self, shape=None, initializer=None, dtype=None, trainable=True, regularizer=None, constraint=None, name=None, **kw):
        w = Variable(tuple(shape or ()), name=name, trainable=trainable, constraint=constraint, init=initializer)
        self._w.append(w)
        return w

    def build(self, *a, **k):
        self.built = True

    def __call__(self, *args, **kwargs):
        if not self.built:
            x = args[0]
            sh = [tuple(t.shape) for t in x] if isinstance(x, (list, tuple)) else tuple(x.shape)
            self.build(sh)
            self.built = True
        self._check_inputs(args[0] if args else None)
        return self._record(lambda: self.call(*args, **kwargs), args, kwargs)

    def _check_inputs(self, inputs):
        """keras.src.layers.input_spec.assert_input_compatibility"""
        if not self.input_spec or inputs is None:
            return
        specs, xs = flat(self.input_spec), flat(inputs)
        if len(specs) != len(xs):
            raise ValueError(f"Layer {self.name} expects {len(specs)} inputs, received {len(xs)}")
        for s, x in zip(specs, xs):
            if s is None:
                continue
            sh = tuple(x.shape)
            if (s.ndim is not None and len(sh) != s.ndim) or (s.min_ndim is not None and len(sh) < s.min_ndim) or (s.max_ndim is not None and len(sh) > s.max_ndim):
                raise ValueError(f"Input of layer {self.name} is incompatible with the layer: rank of {sh}")
            for a, v in (s.axes or {}).items():
                if v is not None and sh[int(a)] not in (v, None):
                    raise ValueError(f"Input of layer {self.name} is incompatible with the layer: axis {a} of {sh} is not {v}")

    def call(self, *a, **k):
        raise NotImplementedError

    def compute_output_shape(self, *a, **k):
        raise NotImplementedError

    def compute_output_spec(self, *a, **k):
        raise NotImplementedError

    def get_config(self):
        return {"name": self.name, "trainable": self.trainable, "dtype": self.dtype}


def linear(x):
    return x


ACTS = {
    "linear": linear,
    "relu": kops.relu,
    "sigmoid": kops.sigmoid,
    "tanh": kops.tanh,
    "softsign": kops.softsign,
    "softplus": kops.softplus,
    "softmax": kops.softmax,
    "exponential": kops.exp,
}


def _act(a):
    if a is None:
        return linear
    if callable(a):
        return a
    return ACTS[a]


def act_name(f):
    if isinstance(f, Layer):
        return {"class_name": type(f).__name__, "config": f.get_config()}
    for k, v in ACTS.items():
        if v is f:
            return k
    return f


CFG = ("kernel_initializer", "bias_initializer", "kernel_regularizer", "bias_regularizer", "kernel_constraint", "bias_constraint")


class Configured(Layer):
    """get_config from the listed attributes"""

    CONFIG = ()

    def get_config(self):
        c = super().get_config()
        for k in self.CONFIG:
            v = getattr(self, k)
            c[k] = act_name(v) if k == "activation" else v
        return c


class Dense(Configured):
    CONFIG = ("units", "activation", "use_bias") + CFG

    def __init__(self, units, activation=None, use_bias=True, kernel_initializer="glorot_uniform", bias_initializer="zeros",
                 kernel_regularizer=None, bias_regularizer=None, activity_regularizer=None, kernel_constraint=None,
                 bias_constraint=None, **kw):
        super().__init__(**kw)
        self.units = units
        self.activation = _act(activation) if activation is not None or FUNC.on else None
        self.use_bias = use_bias
        self.kernel_initializer = kernel_initializer
        self.bias_initializer = bias_initializer
        self.kernel_regularizer = kernel_regularizer
        self.bias_regularizer = bias_regularizer
        self.kernel_constraint = kernel_constraint
        self.bias_constraint = bias_constraint
        self.kernel = None
        self.bias = None

    def build(self, s):
        self.kernel = self.add_weight(shape=(s[-1], self.units), name="kernel")
        self.bias = self.add_weight(shape=(self.units,), name="bias") if self.use_bias else None
        self.built = True

    def call(self, x, training=None):
        y = kops.matmul(x, self.kernel)
        if self.bias is not None:
            y = y + self.bias
        return self.activation(y) if self.activation else y

    def compute_output_shape(self, s):
        return tuple(s[:-1]) + (self.units,)


def _pair(v, n=2):
    return tuple(v) if isinstance(v, (tuple, list)) else (v,) * n


class Conv2D(Configured):
    CONFIG = ("filters", "kernel_size", "strides", "padding", "data_format", "dilation_rate", "groups", "activation", "use_bias") + CFG

    def __init__(self, filters, kernel_size, strides=(1, 1), padding="valid", data_format=None, dilation_rate=(1, 1),
                 groups=1, activation=None, use_bias=True, kernel_initializer="glorot_uniform", bias_initializer="zeros",
                 kernel_regularizer=None, bias_regularizer=None, activity_regularizer=None, kernel_constraint=None,
                 bias_constraint=None, **kw):
        super().__init__(**kw)
        self.rank = 2
        self.filters = filters
        self.kernel_size = _pair(kernel_size)
        self.strides = _pair(strides)
        self.padding = padding
        self.data_format = data_format or "channels_last"
        self.dilation_rate = _pair(dilation_rate)
        self.groups = groups
        self.use_bias = use_bias
        self.activation = _act(activation) if activation is not None or FUNC.on else None
        self.kernel_initializer = kernel_initializer
        self.bias_initializer = bias_initializer
        self.kernel_regularizer = kernel_regularizer
        self.bias_regularizer = bias_regularizer
        self.kernel_constraint = kernel_constraint
        self.bias_constraint = bias_constraint
        self.kernel = None
        self.bias = None

    def build(self, s):
        c = s[1] if self.data_format == "channels_first" else s[-1]
        self.kernel = self.add_weight(shape=self.kernel_size + (c, self.filters), name="kernel")
        self.bias = self.add_weight(shape=(self.filters,), name="bias") if self.use_bias else None
        self.built = True

    def call(self, x):
        y = kops.conv(x, self.kernel, self.strides, self.padding, self.data_format, self.dilation_rate)
        if self.bias is not None:
            if self.data_format == "channels_last":
                y = y + kops.reshape(self.bias, (1, 1, 1, -1))
            else:
                y = y + kops.reshape(self.bias, (1, -1, 1, 1))
        return self.activation(y) if self.activation else y

    def compute_output_shape(self, s):
        x = Tensor([dim_of_int(i) for i in s], lambda i: T.ZERO)
        k = Tensor([dim_of_int(i) for i in self.kernel_size]
                   + [x.dims[1 if self.data_format == "channels_first" else 3], dim_of_int(self.filters)], lambda i: T.ZERO)
        return kops.conv(x, k, self.strides, self.padding, self.data_format, self.dilation_rate).shape


class Activation(Layer):
    def __init__(self, activation, **kw):
        super().__init__(**kw)
        self.activation = _act(activation) if not isinstance(activation, str) or activation in (
            "linear", "relu", "sigmoid", "tanh", "softsign", "softplus", "softmax", "exponential") else activation
        self._activation_name = activation

    def get_config(self):
        c = super().get_config()
        c["activation"] = self._activation_name
        return c

    def build(self, *a):
        self.built = True

    def call(self, x):
        return self.activation(x)

    def compute_output_shape(self, s):
        return s


class Flatten(Configured):
    CONFIG = ('data_format',)

    def __init__(self, data_format=None, **kw):
        super().__init__(**kw)
        self.data_format = data_format or "channels_last"
        self._channels_first = self.data_format == "channels_first"

    def call(self, x):
        x = as_tensor(x)
        if self._channels_first and x.ndim > 1:
            x = kops.transpose(x, (0,) + tuple(range(2, x.ndim)) + (1,))
        return kops.reshape(x, (-1 if x.shape[0] != 1 else 1, int(_np.prod(x.shape[1:])) if x.ndim > 1 else 1))

    def compute_output_shape(self, s):
        n = 1
        for k in s[1:]:
            n *= k
        return (s[0], n)


class BatchNormalization(Configured):
    CONFIG = ('axis', 'momentum', 'epsilon', 'center', 'scale')

    def __init__(self, axis=-1, momentum=0.99, epsilon=1e-3, center=True, scale=True, beta_initializer="zeros",
                 gamma_initializer="ones", moving_mean_initializer="zeros", moving_variance_initializer="ones",
                 beta_regularizer=None, gamma_regularizer=None, beta_constraint=None, gamma_constraint=None,
                 synchronized=False, **kw):
        super().__init__(**kw)
        self.axis, self.momentum, self.epsilon, self.center, self.scale = axis, momentum, epsilon, center, scale
        self.gamma = self.beta = None

    def build(self, s):
        sh = (s[self.axis],)
        if self.scale:
            self.gamma = self.add_weight(shape=sh, name="gamma")
        if self.center:
            self.beta = self.add_weight(shape=sh, name="beta")
        self.moving_mean = self.add_weight(shape=sh, name="moving_mean", trainable=False)
        self.moving_variance = self.add_weight(shape=sh, name="moving_variance", trainable=False)
        self.built = True

    def call(self, x, training=None, mask=None):
        x = as_tensor(x)
        if training:
            raise Unsupported("batch normalisation in training mode")
        sh = [1] * x.ndim
        sh[self.axis] = x.shape[self.axis]
        r = lambda t: kops.reshape(t, sh)
        y = (x - r(self.moving_mean)) / kops.sqrt(r(self.moving_variance) + self.epsilon)
        if self.gamma is not None:
            y = y * r(self.gamma)
        if self.beta is not None:
            y = y + r(self.beta)
        return y

    def compute_output_shape(self, s):
        return s


class Dropout(Configured):
    CONFIG = ('rate', 'noise_shape', 'seed')

    def __init__(self, rate, noise_shape=None, seed=None, **kw):
        super().__init__(**kw)
        self.rate, self.noise_shape, self.seed = rate, noise_shape, seed
        self.built = True

    def call(self, x, training=False):
        if training:
            raise Unsupported("dropout in training mode")
        return x

    def compute_output_shape(self, s):
        return s


class InputLayer(Configured):
    CONFIG = ('batch_shape',)

    def __init__(self, shape=None, batch_size=None, dtype=None, sparse=None, batch_shape=None, input_tensor=None, name=None, **kw):
        super().__init__(name=name, **kw)
        self.batch_shape = tuple(batch_shape) if batch_shape else (batch_size,) + tuple(shape or ())
        self.built = True

    def call(self):
        return None


class Lambda(Layer):
    def __init__(self, function, output_shape=None, mask=None, arguments=None, **kw):
        super().__init__(**kw)
        self.function = function
        self.arguments = arguments or {}
        self._output_shape = output_shape

    def call(self, x, mask=None, training=None):
        return self.function(x, **self.arguments)

    def compute_output_shape(self, s):
        if self._output_shape is None:
            raise NotImplementedError
        if callable(self._output_shape):
            return self._output_shape(s)
        return self._output_shape


class Merge(Configured):
    def build(self, s):
        self.built = True

    def call(self, xs):
        return self._merge_function(xs)

    def compute_output_shape(self, s):
        return s[0]


class Add(Merge):
    def _merge_function(self, xs):
        r = xs[0]
        for x in xs[1:]:
            r = r + x
        return r


class Average(Merge):
    def _merge_function(self, xs):
        return Add._merge_function(self, xs) / len(xs)


class Subtract(Merge):
    def _merge_function(self, xs):
        if len(xs) != 2:
            raise ValueError("Subtract: exactly 2 inputs")
        return xs[0] - xs[1]


class Multiply(Merge):
    def _merge_function(self, xs):
        r = xs[0]
        for x in xs[1:]:
            r = r * x
        return r


class Maximum(Merge):
    def _merge_function(self, xs):
        r = xs[0]
        for x in xs[1:]:
            r = kops.maximum(r, x)
        return r


class Minimum(Merge):
    def _merge_function(self, xs):
        r = xs[0]
        for x in xs[1:]:
            r = kops.minimum(r, x)
        return r


class Concatenate(Merge):
    CONFIG = ("axis",)

    def __init__(self, axis=-1, **kw):
        super().__init__(**kw)
        self.axis = axis

    def _merge_function(self, xs):
        return kops.concatenate(xs, self.axis)

    def compute_output_shape(self, s):
        o = list(s[0])
        o[self.axis] = sum(t[self.axis] for t in s)
        return tuple(o)


class Dot(Merge):
    CONFIG = ("axes", "normalize")

    def __init__(self, axes, normalize=False, **kw):
        super().__init__(**kw)
        self.axes = axes
        self.normalize = normalize

    def _merge_function(self, xs):
        if self.normalize:
            raise Unsupported("normalised Dot")
        x, y = xs
        ax = [self.axes] * 2 if isinstance(self.axes, int) else list(self.axes)
        ax = [a if a >= 0 else a + t.ndim for a, t in zip(ax, (x, y))]
        return kops.batch_dot(x, y, ax)

    def compute_output_shape(self, s):
        x, y = [Tensor([dim_of_int(i) for i in t], lambda i: T.ZERO) for t in s]
        return self._merge_function([x, y]).shape


class Reshape(Configured):
    CONFIG = ('target_shape',)

    def __init__(self, target_shape, **kw):
        super().__init__(**kw)
        self.target_shape = tuple(target_shape)

    def call(self, x):
        return kops.reshape(x, (x.shape[0],) + self.target_shape)

    def compute_output_shape(self, s):
        return kops.reshape(Tensor([dim_of_int(i) for i in s], lambda i: T.ZERO), (s[0],) + self.target_shape).shape


class Permute(Configured):
    CONFIG = ('dims',)

    def __init__(self, dims, **kw):
        super().__init__(**kw)
        self.dims = tuple(dims)

    def call(self, x):
        return kops.transpose(x, (0,) + self.dims)

    def compute_output_shape(self, s):
        return (s[0],) + tuple(s[d] for d in self.dims)


class MaxPooling2D(Configured):
    CONFIG = ('pool_size', 'strides', 'padding', 'data_format')

    def __init__(self, pool_size=(2, 2), strides=None, padding="valid", data_format=None, name=None, **kw):
        super().__init__(name=name, **kw)
        self.pool_size = _pair(pool_size)
        self.strides = _pair(strides) if strides is not None else self.pool_size
        self.padding = padding
        self.data_format = data_format or "channels_last"

    def call(self, x):
        return kops.max_pool(x, self.pool_size, self.strides, self.padding, self.data_format)

    def compute_output_shape(self, s):
        x = Tensor([dim_of_int(i) for i in s], lambda i: T.ZERO)
        return kops.max_pool(x, self.pool_size, self.strides, self.padding, self.data_format).shape


class Wrapper(Layer):
    def __init__(self, layer, **kw):
        super().__init__(**kw)
        self.layer = layer

    def get_config(self):
        c = super().get_config()
        c["layer"] = self.layer
        return c


class Softmax(Layer):
    def __init__(self, axis=-1, **kw):
        super().__init__(**kw)
        self.axis = axis
        self.built = True

    def call(self, x, mask=None):
        return kops.softmax(x, axis=self.axis)

    def compute_output_shape(self, s):
        return s


class Model(Layer):
    def __new__(cls, *a, **k):
        if cls is Model and (a or "inputs" in k):
            return object.__new__(Functional)
        return object.__new__(cls)

    def __init__(self, inputs=None, outputs=None, **kw):
        super().__init__(**kw)
        if not FUNC.on:
            self.inputs = inputs if isinstance(inputs, list) else [inputs]
            self.outputs = outputs if isinstance(outputs, list) else [outputs]
            return
        self._graph(inputs, outputs)

    def _graph(self, inputs, outputs):
        self._in, self._out = inputs, outputs
        self.inputs, self.outputs = flat(inputs), flat(outputs)
        for t in self.inputs + self.outputs:
            if not isinstance(t, Tensor):
                raise ValueError(f"Unrecognized type: {type(t)}")
        self._nodes_by_depth, self._operations = map_graph(self.inputs, self.outputs)
        self.output_names = [getattr(history(t).operation, "name", None) for t in self.outputs]
        self.built = True

    @property
    def input(self):
        return self._in

    @property
    def output(self):
        return self._out

    @property
    def operations(self):
        return list(self._operations)

    @property
    def layers(self):
        return [o for o in self._operations if isinstance(o, Layer)]

    @property
    def weights(self):
        r = []
        for o in self.layers:
            r += [w for w in o.weights if all(w is not v for v in r)]
        return r

    def get_layer(self, name):
        return next(l for l in self.layers if l.name == name)

    def call(self, inputs, training=None, mask=None):
        xs = flat(inputs)
        if len(xs) != len(self.inputs):
            raise ValueError("number of inputs of the model")
        val = {id(t): x for t, x in zip(self.inputs, xs)}
        get = lambda t: val.get(id(t), t) if isinstance(t, Tensor) else t
        for d in sorted(self._nodes_by_depth, reverse=True):
            for n in self._nodes_by_depth[d]:
                if n.is_input or not all(id(t) in val for t in n.input_tensors):
                    continue
                a, k = restruct(list(n.call_args), get), {q: restruct(v, get) for q, v in n.call_kwargs.items()}
                out = n.operation(*a, **k)
                for t, o in zip(n.outputs, flat(out)):
                    val[id(t)] = o
        for t in self.outputs:
            if id(t) not in val:
                raise Unsupported("output of a model that is not a call of a layer")
        return restruct(self._out, lambda t: val[id(t)])

    def compute_output_shape(self, s):
        raise Unsupported("compute_output_shape of a model")


class Functional(Model):
    pass


class Sequential(Model):
    def __init__(self, layers=None, **kw):
        Layer.__init__(self, **kw)
        self._seq = []
        for l in layers or []:
            self.add(l)

    def add(self, layer):
        if isinstance(layer, Tensor):
            layer = history(layer).operation
        self._seq.append(layer)
        if not isinstance(self._seq[0], InputLayer):
            raise Unsupported("sequential model without input layer")
        x0 = self._seq[0]._inbound_nodes[0].outputs[0]
        self._last = x0 if len(self._seq) == 1 else layer(self._last)
        self._graph(x0, self._last)

    @property
    def layers(self):
        return [l for l in self._seq if not isinstance(l, InputLayer)]


def map_graph(inputs, outputs):
    """keras.src.ops.function.map_graph"""
    finished, order, indices = set(), [], {}
    stop = {id(t) for t in inputs}
    bare = False

    def visit(t):
        nonlocal bare
        h = history(t)
        if h.operation is None:
            bare = bare or id(t) not in stop
            return
        n = h.operation._inbound_nodes[h.node_index]
        if id(n) in finished:
            return
        indices.setdefault(id(h.operation), len(indices))
        for u in n.input_tensors:
            visit(u)
        finished.add(id(n))
        order.append(n)

    for t in outputs:
        visit(t)
    nd, od, ops, keep = {}, {}, {}, {}
    for n in reversed(order):
        depth = max(nd.setdefault(id(n), 0), od.get(id(n.operation), 0))
        ops[id(n.operation)] = n.operation
        keep[id(n)] = n
        od[id(n.operation)] = nd[id(n)] = depth
        for p in n.parent_nodes:
            keep[id(p)] = p
            nd[id(p)] = max(depth + 1, nd.get(id(p), 0))
    for t in inputs:
        op = history(t).operation
        if op is not None and id(op) not in od:
            od[id(op)] = 0
            ops[id(op)] = op
            indices[id(op)] = -1
            n = op._inbound_nodes[0]
            keep[id(n)] = n
            nd[id(n)] = 0
    by = collections.defaultdict(list)
    for i, d in nd.items():
        by[d].append(keep[i])
    obd = collections.defaultdict(list)
    for i, d in od.items():
        obd[d].append(ops[i])
    operations = []
    for d in sorted(obd, reverse=True):
        operations += sorted(obd[d], key=lambda o: indices[id(o)])
    done = set(stop)
    for d in sorted(by, reverse=True):
        for n in by[d]:
            if not bare and any(id(t) not in done for t in n.input_tensors):
                raise ValueError(f"Graph disconnected: cannot find parent of an input of '{n.operation.name}'")
            done |= {id(t) for t in n.outputs}
    names = [o.name for o in operations]
    for n in names:
        if names.count(n) != 1 and not bare:
            raise ValueError(f'The name "{n}" is used {names.count(n)} times in the model. All operation names should be unique.')
    return dict(by), operations


def Input(shape=None, batch_size=None, dtype=None, name=None, tensor=None, batch_shape=None, **kw):
    if FUNC.batch is None:
        raise Unsupported("keras.Input in the symbolic world")
    shape = tuple(batch_shape[1:]) if batch_shape is not None else tuple(shape)
    t = declare(f"in~{next(_uid)}", FUNC.batch, *[dim_of_int(k) for k in shape])
    if not FUNC.on:
        return t
    l = InputLayer(shape=shape, name=name)
    Node(l, outputs=[t])
    return t


class Constraint:
    def __call__(self, w):
        return w


class Initializer:
    def __call__(self, shape, dtype=None, **kw):
        raise NotImplementedError


class Loss:
    pass


class Optimizer:
    """arguments of the optimizers of keras 3.0.5; others raise"""

    ARGS = {"beta_1", "beta_2", "epsilon", "amsgrad", "momentum", "nesterov", "rho", "centered", "initial_accumulator_value"}
    BASE = {"weight_decay", "clipnorm", "clipvalue", "global_clipnorm", "use_ema", "ema_momentum", "ema_overwrite_frequency", "loss_scale_factor", "name"}

    def __init__(self, learning_rate=0.001, **k):
        if set(k) - self.ARGS - self.BASE:
            raise ValueError(f"Argument(s) not recognized: {sorted(set(k) - self.ARGS - self.BASE)}")


class Adam(Optimizer):
    pass


def rnn(step_function, inputs, initial_states, go_backwards=False, mask=None, constants=None, unroll=False,
        input_length=None, time_major=False, zero_output_for_mask=False, return_all_outputs=True):
    """assumed contract: applies step_function to every time slice (axis 1) and stacks the outputs on axis 1"""
    x = as_tensor(inputs)
    if initial_states or go_backwards or mask is not None or time_major:
        raise Unsupported("rnn with states")
    d = x.dims[1]
    cell = {}

    def run(t):
        r = cell.get(t)
        if r is None:
            sl = Tensor(x.dims[:1] + x.dims[2:], lambda idx: x.at(idx[:1] + (t,) + idx[1:]), dtype=x.dtype)
            r, _ = step_function(sl, [])
            cell[t] = r
        return r

    from .tensor import all_indices

    probe = tuple(T.ivar(a, a.name) if a.kind != "con" else T.iconst(0) for a in d)
    if any(a.kind == "sum" for a in d):
        probe = next(all_indices((d,)))[0]
    o0 = run(probe)
    out = Tensor(o0.dims[:1] + (d,) + o0.dims[1:], lambda idx: run(idx[1]).at(idx[:1] + idx[2:]), dtype=x.dtype)
    return None, out, []


def to_list(x):
    return x if isinstance(x, list) else [x]


EPS = 1e-7


def install():
    """put the stand-in modules into sys.modules"""
    if "keras" in sys.modules and getattr(sys.modules["keras"], "_verif_stub", False):
        return
    mods = {}
    if not hasattr(_np, "float_"):
        _np.float_ = _np.float64
        _np.int_ = _np.int64

    def mod(name):
        m = types.ModuleType(name)
        m._verif_stub = True
        m.__path__ = []
        sys.modules[name] = m
        mods[name] = m
        if "." in name:
            p, c = name.rsplit(".", 1)
            setattr(sys.modules[p], c, m)
        return m

    k = mod("keras")
    k.__version__ = "3.0.5"
    ops = mod("keras.ops")
    for n, f in kops.namespace().items():
        setattr(ops, n, f)

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            raise Unsupported(f"keras.ops.{name} has no contract")

        return f

    ops.__getattr__ = missing
    im = mod("keras.ops.image")
    im.extract_patches = kops.extract_patches
    cfg = mod("keras.config")
    cfg.floatx = lambda: "float32"
    cfg.epsilon = lambda: EPS
    cfg.backend = lambda: "symbolic"
    lay = mod("keras.layers")
    for c in (Layer, Dense, Conv2D, Activation, Flatten, BatchNormalization, Dropout, InputLayer, Lambda, Add, Average,
              Subtract, Multiply, Maximum, Minimum, Concatenate, Dot, Reshape, Permute, MaxPooling2D, Wrapper, InputSpec):
        setattr(lay, c.__name__, c)
    lay.Input = Input
    for n in ("ReLU", "LeakyReLU"):
        setattr(lay, n, type(n, (Layer,), {}))
    lay.Softmax = Softmax
    ac = mod("keras.activations")
    ac.get = lambda a: linear if a is None else _act(a)
    ac.serialize = act_name
    for n, f in ACTS.items():
        setattr(ac, n, f)
    k.Model, k.Sequential, k.Input = Model, Sequential, Input
    k.Operation, k.KerasTensor, k.Variable, k.Layer = Operation, KerasTensor, Variable, Layer
    mm = mod("keras.models")
    mm.Model, mm.Sequential = Model, Sequential
    c = mod("keras.constraints")
    c.Constraint = Constraint
    i = mod("keras.initializers")
    i.Initializer = Initializer
    i.get = lambda x: x
    o = mod("keras.optimizers")
    for n in ("Adam", "SGD", "RMSprop", "Adagrad", "Adamax", "Nadam", "AdamW", "Adadelta"):
        setattr(o, n, Adam if n == "Adam" else type(n, (Optimizer,), {}))
    o.Optimizer = Optimizer
    k.optimizers = o
    u = mod("keras.utils")
    u.serialize_keras_object = lambda x: x
    u.register_keras_serializable = lambda *a, **k: (lambda c: c)
    s = mod("keras.src")
    s.Functional = Functional
    b = mod("keras.src.backend")
    b.rnn = rnn
    mod("keras.src.layers")
    mod("keras.src.layers.merging")
    d = mod("keras.src.layers.merging.dot")
    d.batch_dot = kops.batch_dot
    mod("keras.src.ops")
    n = mod("keras.src.ops.node")
    n.Node = Node
    mod("keras.src.utils")
    pu = mod("keras.src.utils.python_utils")
    pu.to_list = to_list
    lo = mod("keras.losses")
    lo.Loss = Loss
    mod("keras.backend").epsilon = lambda: EPS
    return mods
