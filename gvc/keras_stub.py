"""The Keras that GroCo's source sees while it is being verified.

Keras's own Python sources of the convolution and pooling layers, the argument validation and the
shape arithmetic are loaded as they are. What remains is stubbed by its contract: the Layer base
class (build once, input spec check, weights, configuration), the tensor operations
(gvc.tensor), and activations, initializers, regularizers and constraints as named objects.
"""

import builtins
import functools
import inspect
import math
import os
import sys
import types

import numpy as np

from . import poly, tensor as T, terms
from .poly import SBool, SFrac, SInt, Unsupported
from .tensor import STensor

KERAS_SRC = None
for _p in ("/opt/venv/lib/python3.12/site-packages/keras/src",):
    if os.path.isdir(_p):
        KERAS_SRC = _p


# ---------------------------------------------------------------- integers

class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (int, SInt))

    def __call__(cls, *args, **kw):
        if len(args) == 1 and not kw:
            x = args[0]
            if isinstance(x, SInt):
                return x
            if isinstance(x, SFrac):
                q, r = poly.sdivmod(x.num, x.den)
                # truncation towards zero
                if bool(q < 0) and not bool(r == 0):
                    return q + 1
                return q
            if isinstance(x, SBool):
                return 1 if bool(x) else 0
            if isinstance(x, STensor):
                return T.as_int(x)
            if isinstance(x, np.ndarray) and x.dtype == object and x.shape == ():
                return cls(x.item())
        return int(*args, **kw)

    def __eq__(cls, o):
        return o is int or o is SymInt

    def __hash__(cls):
        return hash(int)


class SymInt(metaclass=_IntMeta):
    pass


SymInt.__name__ = "int"


def sym_float(x=0.0):
    if isinstance(x, (SInt, SFrac)):
        return x
    return float(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, float)

    def __call__(cls, *a):
        return sym_float(*a)

    def __eq__(cls, o):
        return o is float or o is SymFloat

    def __hash__(cls):
        return hash(float)


class SymFloat(metaclass=_FloatMeta):
    pass


def sym_bool(x=False):
    return builtins.bool(x)


# ---------------------------------------------------------------- numpy

class SArr(np.ndarray):
    """An object array of symbolic integers: keeps them when asked for integers."""

    def astype(self, dtype, *a, **k):
        if self.dtype == object and dtype is not object:
            return _obj(self)
        return np.ndarray.astype(self, _dt(dtype), *a, **k)

    def tolist(self):
        return [x.tolist() if isinstance(x, np.ndarray) else _py(x) for x in self] if self.ndim else _py(self.item())


def _py(x):
    return x.item() if isinstance(x, np.generic) else x


def _obj(a):
    return np.asarray(a, dtype=object).view(SArr)


def _dt(d):
    if d is SymInt:
        return int
    if d is SymFloat:
        return float
    return d


def _post(r):
    if isinstance(r, np.ndarray) and r.dtype == object:
        if not T.symbolic(r):
            return np.array(r.tolist()) if r.size else r
        return r.view(SArr)
    if isinstance(r, (tuple, list)) and type(r) in (tuple, list):
        return type(r)(_post(x) for x in r)
    return r


class NumpyFacade(types.ModuleType):
    """numpy, on arrays that may hold symbolic integers."""

    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, name):
        f = getattr(np, name)
        if isinstance(f, types.ModuleType) or not builtins.callable(f) or isinstance(f, type):
            if name == "ndarray" or not isinstance(f, type):
                return f
            if isinstance(f, type) and issubclass(f, np.integer):
                return _scalar_type(f)
            return f

        @functools.wraps(f)
        def wrapped(*args, **kw):
            if any(isinstance(a, STensor) for a in args):
                raise Unsupported(f"numpy.{name} of a symbolic tensor")
            sym = any(T.symbolic(a) for a in args) or any(T.symbolic(v) for v in kw.values())
            if "dtype" in kw:
                kw["dtype"] = object if sym else _dt(kw["dtype"])
            elif name in ("array", "asarray") and len(args) > 1:
                args = (args[0], object if sym else _dt(args[1])) + args[2:]
            if not sym:
                return f(*args, **kw)
            alt = _alternatives.get(name)
            try:
                return _post(alt(*args, **kw) if alt else f(*args, **kw))
            except (TypeError, AttributeError) as e:
                raise Unsupported(f"numpy.{name} of symbolic integers: {e}")

        return wrapped


def _scalar_type(f):
    def make(x=0):
        return x if isinstance(x, SInt) else f(x)

    return make


def _ceil_div_like(fn):
    def g(x):
        if isinstance(x, np.ndarray):
            return np.array([fn(v) for v in x.ravel()], dtype=object).reshape(x.shape)
        return fn(x)

    return g


_alternatives = {
    "floor": _ceil_div_like(math.floor),
    "ceil": _ceil_div_like(math.ceil),
    "abs": _ceil_div_like(abs),
    "absolute": _ceil_div_like(abs),
    "sign": _ceil_div_like(lambda v: (1 if bool(v > 0) else (-1 if bool(v < 0) else 0))),
}

NP = NumpyFacade()


# ---------------------------------------------------------------- loading sources

def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if name == "numpy" and not level:
        return NP
    return builtins.__import__(name, globals, locals, fromlist, level)


def sandbox_builtins():
    b = dict(vars(builtins))
    b["int"] = SymInt
    b["float"] = SymFloat
    b["__import__"] = _import
    return b


def execute(source, filename, name, package, is_pkg=False):
    mod = types.ModuleType(name)
    mod.__file__ = filename
    mod.__package__ = name if is_pkg else package
    if is_pkg:
        mod.__path__ = [os.path.dirname(filename)]
    mod.__dict__["__builtins__"] = sandbox_builtins()
    sys.modules[name] = mod
    try:
        exec(compile(source, filename, "exec"), mod.__dict__)
    except BaseException:
        del sys.modules[name]
        raise
    parent, _, leaf = name.rpartition(".")
    if parent in sys.modules:
        setattr(sys.modules[parent], leaf, mod)
    return mod


# ---------------------------------------------------------------- variables and layers

class Variable:
    """A weight: a tensor whose value can be replaced."""

    __array_ufunc__ = None

    def __init__(self, value, name, trainable=True):
        self.value = value
        self.name = name
        self.trainable = trainable

    shape = property(lambda self: self.value.shape)
    dtype = property(lambda self: self.value.dtype)
    ndim = property(lambda self: self.value.ndim)

    def assign(self, value):
        if callable(getattr(value, "at", None)) or isinstance(value, (np.ndarray, Variable)):
            self.value = T.tensor(value.value if isinstance(value, Variable) else value)
        else:
            self.value = T.tensor(value)
        return self.value

    def numpy(self):
        raise Unsupported("symbolic weight converted to numpy")

    __array__ = numpy

    def __getitem__(self, k):
        return self.value[k]

    def __len__(self):
        return len(self.value)

    def __iter__(self):
        return iter(self.value)

    def __bool__(self):
        return bool(self.value)

    def __add__(self, o):
        return T.add(self.value, o)

    def __radd__(self, o):
        return T.add(o, self.value)

    def __sub__(self, o):
        return T.subtract(self.value, o)

    def __rsub__(self, o):
        return T.subtract(o, self.value)

    def __mul__(self, o):
        return T.multiply(self.value, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return T.true_divide(self.value, o)

    def __neg__(self):
        return T.negative(self.value)


_counts = {}
image_data_format_value = ["channels_last"]


def reset():
    _counts.clear()
    image_data_format_value[0] = "channels_last"


def image_data_format():
    return image_data_format_value[0]


def set_image_data_format(v):
    image_data_format_value[0] = v


def standardize_data_format(data_format):
    if data_format is None:
        return image_data_format()
    data_format = str(data_format).lower()
    if data_format not in {"channels_first", "channels_last"}:
        raise ValueError(f"The `data_format` argument must be one of {{'channels_first', 'channels_last'}}. Received: {data_format}")
    return data_format


def auto_name(cls):
    out = "".join("_" + c.lower() if c.isupper() else c for c in cls).lstrip("_")
    n = _counts.get(out, 0)
    _counts[out] = n + 1
    return out if n == 0 else f"{out}_{n}"


def is_tensor(x):
    return isinstance(x, (STensor, np.ndarray))


class Layer:
    def __new__(cls, *args, **kwargs):
        obj = object.__new__(cls)
        original = obj.build

        @functools.wraps(original)
        def build_wrapper(*args, **kwargs):
            original(*args, **kwargs)
            signature = inspect.signature(original)
            object.__setattr__(obj, "_build_shapes_dict", signature.bind(*args, **kwargs).arguments)
            obj.built = True

        object.__setattr__(obj, "build", build_wrapper)
        return obj

    def __init__(self, *, activity_regularizer=None, trainable=True, dtype=None, autocast=True, name=None, **kwargs):
        self._lock = False
        if name is None:
            name = auto_name(type(self).__name__)
        if not isinstance(name, str) or "/" in name:
            raise ValueError(f"Argument `name` must be a string and cannot contain character `/`. Received: name={name}")
        self.name = name
        self.activity_regularizer = regularizers.get(activity_regularizer)
        kwargs.pop("input_dim", None)
        kwargs.pop("input_shape", None)
        if kwargs:
            raise ValueError(f"Unrecognized keyword arguments passed to {type(self).__name__}: {kwargs}")
        self.built = False
        self._input_spec = None
        self.trainable = trainable
        self.dtype = str(dtype) if dtype else "float32"
        self.autocast = autocast
        self._weights = []
        self._build_shapes_dict = None

    @property
    def input_spec(self):
        return self._input_spec

    @input_spec.setter
    def input_spec(self, v):
        self._input_spec = v

    compute_dtype = variable_dtype = property(lambda self: self.dtype)
    weights = variables = property(lambda self: self._all_weights())
    trainable_weights = property(lambda self: [w for w in self._all_weights() if w.trainable])
    non_trainable_weights = property(lambda self: [w for w in self._all_weights() if not w.trainable])

    def _all_weights(self):
        out = list(self._weights)
        for v in self.__dict__.values():
            if isinstance(v, Layer):
                out += v._all_weights()
        return out

    def set_weights(self, ws):
        for v, w in zip(self.weights, ws):
            v.assign(w)

    def get_weights(self):
        return [w.value for w in self.weights]

    def build(self, input_shape):
        pass

    def add_weight(self, shape=None, initializer=None, dtype=None, trainable=True, regularizer=None, constraint=None, name=None, **k):
        name = f"{self.name}/{name or 'variable'}"
        v = Variable(T.variable(name, shape, dtype or self.dtype), name, trainable)
        self._weights.append(v)
        return v

    def _assert_input_compatibility(self, x):
        if self.input_spec:
            input_spec_module.assert_input_compatibility(self.input_spec, x, layer_name=self.name)

    def __call__(self, *args, **kwargs):
        if getattr(self, "_lock", True):
            raise RuntimeError(f"In layer '{type(self).__name__}', you forgot to call `super().__init__()`")

        def convert(x):
            if isinstance(x, Variable):
                x = x.value
            if is_tensor(x) and str(x.dtype) in T.FLOATS and self.autocast:
                return T.cast(x, self.dtype)
            if isinstance(x, (float, list)):
                return T.convert_to_tensor(x)
            return x

        args = tuple(convert(a) for a in args)
        kwargs = {k: convert(v) for k, v in kwargs.items()}
        for a in args:
            if not is_tensor(a):
                raise ValueError(f"Only input tensors may be passed as positional arguments. Received {a}")
        first = args[0] if args else next(iter(kwargs.values()))
        self._assert_input_compatibility(first)
        if not self.built:
            self.build(tuple(first.shape))
        out = self.call(*args, **kwargs)
        self.built = True
        return out

    def call(self, *args, **kwargs):
        raise NotImplementedError

    def compute_output_shape(self, *args, **kwargs):
        raise NotImplementedError

    def get_config(self):
        return {"name": self.name, "trainable": self.trainable, "dtype": self.dtype}

    @classmethod
    def from_config(cls, config):
        try:
            return cls(**config)
        except (Unsupported, poly.PathAbort):
            raise
        except Exception as e:
            raise TypeError(f"Error when deserializing class '{cls.__name__}' using config={config}.\n\nException encountered: {e}")


# ---------------------------------------------------------------- named objects

class Named:
    def __init__(self, kind, name, config=None):
        self.kind, self.name, self.config = kind, name, config or {}

    def get_config(self):
        return self.config

    def __call__(self, *a, **k):
        return Named.apply(self, *a)

    def apply(self, x):
        raise Unsupported(f"{self.kind} {self.name} applied")

    def __eq__(self, o):
        return isinstance(o, Named) and (self.kind, self.name, self.config) == (o.kind, o.name, o.config)

    def __hash__(self):
        return hash((self.kind, self.name))


class Registry(types.ModuleType):
    def __init__(self, kind):
        super().__init__("keras.src." + kind)
        self.kind = kind

    def get(self, x):
        if x is None or isinstance(x, Named):
            return x
        if isinstance(x, str):
            return Named(self.kind, x)
        if isinstance(x, dict):
            return Named(self.kind, x["class_name"], x.get("config"))
        if callable(x):
            return x
        raise ValueError(f"Could not interpret {self.kind} identifier: {x}")

    def serialize(self, x):
        if x is None:
            return None
        if isinstance(x, Named):
            return {"module": "keras." + self.kind, "class_name": x.name, "config": x.config, "registered_name": None}
        return getattr(x, "__name__", str(x))


class Activation:
    def __init__(self, name):
        self.__name__ = name

    def __call__(self, x):
        if self.__name__ == "linear":
            return x
        return T.elementwise(lambda v: terms.app(self.__name__, terms.to_rp(v)), x)


_acts = {}


class Activations(types.ModuleType):
    def get(self, x):
        if x is None:
            x = "linear"
        if isinstance(x, dict):
            x = x["config"] if isinstance(x.get("config"), str) else x["class_name"]
        if isinstance(x, str):
            if x not in _acts:
                _acts[x] = Activation(x)
            return _acts[x]
        if callable(x):
            return x
        raise ValueError(f"Could not interpret activation function identifier: {x}")

    def serialize(self, x):
        return x.__name__

    def linear(self, x):
        return x


activations = Activations("keras.src.activations")
initializers = Registry("initializers")
regularizers = Registry("regularizers")
constraints = Registry("constraints")
input_spec_module = None
transpose_padding = None


class OpsModule(types.ModuleType):
    """keras.ops: what has a contract, and nothing else."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def missing(*a, **k):
            raise Unsupported(f"keras.ops.{name} has no contract")

        return missing


OPS = (
    "abs absolute add subtract multiply divide true_divide floor_divide mod negative maximum minimum equal not_equal "
    "less less_equal greater greater_equal logical_and logical_or logical_not square relu exp log sqrt tanh sigmoid "
    "sin cos softplus gelu silu elu selu erf sign rsqrt log1p where cast convert_to_tensor array convert_to_numpy "
    "identity stop_gradient copy is_tensor ndim size shape reshape ravel expand_dims squeeze transpose moveaxis "
    "swapaxes flip rot90 roll broadcast_to zeros ones full zeros_like ones_like full_like empty arange eye concatenate "
    "stack split unstack repeat tile take take_along_axis pad sum max min amax amin mean prod any all einsum matmul "
    "conv conv_transpose max_pool average_pool remainder"
).split()


class KerasTensor:
    def __init__(self, shape, dtype="float32", name=None):
        self.shape, self.dtype = tuple(shape), dtype


def keras_export(*a, **k):
    return lambda x: x


def _module(name, pkg=False, **attrs):
    m = types.ModuleType(name)
    if pkg:
        m.__path__ = []
    m.__dict__.update(attrs)
    sys.modules[name] = m
    parent, _, leaf = name.rpartition(".")
    if parent in sys.modules:
        setattr(sys.modules[parent], leaf, m)
    return m


REAL_KERAS = [
    "utils.argument_validation",
    "ops.operation_utils",
    "backend.common.backend_utils",
    "layers.input_spec",
    "layers.convolutional.base_conv",
    "layers.convolutional.conv1d",
    "layers.convolutional.conv2d",
    "layers.convolutional.conv3d",
    "layers.convolutional.base_conv_transpose",
    "layers.convolutional.conv2d_transpose",
    "layers.convolutional.conv3d_transpose",
    "layers.pooling.base_pooling",
    "layers.pooling.base_global_pooling",
] + [
    f"layers.pooling.{g}{k}_pooling{d}d" for g in ("", "global_") for k in ("max", "average") for d in (1, 2, 3)
]


def install():
    """Put the verified Keras in place of keras."""
    global input_spec_module, transpose_padding
    if "keras" in sys.modules and getattr(sys.modules["keras"], "__gvc__", False):
        return
    _module("keras", pkg=True, __gvc__=True, __version__="3.0.5", KerasTensor=KerasTensor)
    ops = OpsModule("keras.ops")
    for n in OPS:
        ops.__dict__[n] = getattr(T, n)
    ops.__dict__["slice"] = T.slice_
    sys.modules["keras.ops"] = sys.modules["keras"].ops = ops
    numpy_ops = OpsModule("keras.ops.numpy")
    numpy_ops.__dict__.update({n: getattr(T, n) for n in OPS})
    sys.modules["keras.ops.numpy"] = ops.numpy = numpy_ops
    _module("keras.config", image_data_format=image_data_format, set_image_data_format=set_image_data_format, floatx=lambda: "float32")
    _module("keras.src", pkg=True)
    backend = _module(
        "keras.src.backend", pkg=True, standardize_data_format=standardize_data_format, image_data_format=image_data_format,
        standardize_shape=lambda s: tuple(s), standardize_dtype=lambda d: "float32" if d is None else str(d),
        is_tensor=is_tensor, KerasTensor=KerasTensor, Variable=Variable, backend=lambda: "jax",
        config=types.SimpleNamespace(image_data_format=image_data_format),
    )
    sys.modules["keras"].backend = sys.modules["keras.backend"] = backend
    _module("keras.src.backend.common", pkg=True)
    _module("keras.src.api_export", keras_export=keras_export)
    _module("keras.src.utils", pkg=True)
    for m in (activations, initializers, regularizers, constraints):
        short = m.__name__.split(".")[-1]
        sys.modules["keras.src." + short] = m
        sys.modules["keras." + short] = m
        setattr(sys.modules["keras"], short, m)
        setattr(sys.modules["keras.src"], short, m)
    # Keras's own layers use its operations
    sys.modules["keras.src.ops"] = sys.modules["keras.src"].ops = ops
    layers_src = _module("keras.src.layers", pkg=True)
    _module("keras.src.layers.layer", Layer=Layer)
    _module("keras.src.layers.convolutional", pkg=True)
    _module("keras.src.layers.pooling", pkg=True)

    def flatten(x):
        if isinstance(x, (list, tuple)):
            return [z for y in x for z in flatten(y)]
        return [x]

    _module("tree", flatten=flatten, map_structure=lambda f, x: f(x))
    layers = _module("keras.layers", Layer=Layer)
    for rel in REAL_KERAS:
        path = os.path.join(KERAS_SRC, *rel.split(".")) + ".py"
        name = "keras.src." + rel
        pkg = name.rpartition(".")[0]
        if pkg == "keras.src.ops":
            ops.__path__ = []
        with open(path) as f:
            m = execute(f.read(), path, name, pkg)
        for v in vars(m).values():
            if isinstance(v, type) and issubclass(v, Layer) and v.__module__ == name:
                setattr(layers, v.__name__, v)
    layers.InputSpec = sys.modules["keras.src.layers.input_spec"].InputSpec
    input_spec_module = sys.modules["keras.src.layers.input_spec"]
    transpose_padding = sys.modules["keras.src.backend.common.backend_utils"].compute_conv_transpose_padding_args_for_jax
    m = sys.modules["keras"]
    m.Variable, m.Layer = Variable, Layer


# ---------------------------------------------------------------- the code under verification

REPO = os.environ.get("GVC_REPO", "/repo")


class GrocoFinder:
    """Loads GroCo's source files as they are in the working tree."""

    def find_spec(self, name, path=None, target=None):
        import importlib.machinery

        if name != "groco" and not name.startswith("groco."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, "__init__.py")):
            file, pkg = os.path.join(base, "__init__.py"), True
        elif os.path.isfile(base + ".py"):
            file, pkg = base + ".py", False
        else:
            return None
        spec = importlib.machinery.ModuleSpec(name, self, origin=file, is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [base]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        file = module.__spec__.origin
        module.__file__ = file
        SOURCES.append(file)
        with open(file) as f:
            src = f.read()
        module.__dict__["__builtins__"] = sandbox_builtins()
        exec(compile(src, file, "exec"), module.__dict__)


SOURCES = []


def load_groco():
    """Import the working tree's groco against the verified Keras."""
    install()
    sys.dont_write_bytecode = True
    if not any(isinstance(f, GrocoFinder) for f in sys.meta_path):
        sys.meta_path.insert(0, GrocoFinder())
    for m in [m for m in sys.modules if m == "groco" or m.startswith("groco.")]:
        del sys.modules[m]
    SOURCES.clear()
    import groco.groups
    import groco.layers
    import groco.utils

    return sys.modules["groco"]
