"""Reference formulation of the conversion of ONNX graphs."""
import casadi
import casadi as ca
import numpy as np
import onnx
from onnx import numpy_helper
from do_mpc.sysid._onnxconversion import ONNXOperations


def new(self, model, model_name=None):
    if not isinstance(model, onnx.onnx_ml_pb2.ModelProto):
        raise Exception
    self.onnx_model = model
    self.name = model_name if isinstance(model_name, str) else 'casadi_model'
    self.graph = model.graph
    self.nodes = list(model.graph.node)
    self.initialized_tensors = {t.name: numpy_helper.to_array(t) for t in model.graph.initializer}
    self.inputshape = {}
    for i in model.graph.input:
        if i.name not in self.initialized_tensors:
            self.inputshape[i.name] = tuple([d.dim_value for d in i.type.tensor_type.shape.dim])
    self.output_layers = [o.name for o in model.graph.output]
    self.layers = [i.name for i in list(model.graph.input)] + [n.output[0] for n in self.nodes]
    self.operations = ONNXOperations()


def fits(shape, value):
    """0 is a dimension of any size; one-dimensional inputs may be columns"""
    size = value.shape
    if len(shape) == 1:
        size = size[:1]
    return len(shape) > 2 or len(shape) == len(size) and not any(n not in (0, m) for n, m in zip(shape, size))


def convert(self, verbose=False, **kwargs):
    if len(kwargs) != len(self.inputshape):
        raise Exception
    if not all(name in kwargs for name in self.inputshape):
        raise Exception
    if not all(isinstance(v, (ca.SX, ca.MX, ca.DM, np.ndarray)) for v in kwargs.values()):
        raise Exception
    self.input = {}
    for name, shape in self.inputshape.items():
        if not fits(shape, kwargs[name]):
            raise Exception
        self.input[name] = kwargs[name]
    values = self.input.copy()
    known = self.input.copy()
    known.update(self.initialized_tensors)
    for n in self.nodes:
        ins = [known[name] for name in n.input]
        if not hasattr(self.operations, n.op_type):
            raise Exception
        out = getattr(self.operations, n.op_type)(*ins, attribute=n.attribute)
        known[n.output[0]] = out
        values[n.output[0]] = out
    self.node_values = values


def convert_lookup(self, verbose=False, **kwargs):
    if len(kwargs) != len(self.inputshape):
        raise Exception
    if not all(name in kwargs for name in self.inputshape):
        raise Exception
    if not all(isinstance(v, (ca.SX, ca.MX, ca.DM, np.ndarray)) for v in kwargs.values()):
        raise Exception
    self.input = {}
    for name, shape in self.inputshape.items():
        if not fits(shape, kwargs[name]):
            raise Exception
        self.input[name] = kwargs[name]
    values = self.input.copy()
    known = self.input.copy()
    known.update(self.initialized_tensors)
    for n in self.nodes:
        ins = [known[name] for name in n.input]
        f = getattr(self.operations, n.op_type, None)
        if f is None:
            raise Exception
        out = f(*ins, attribute=n.attribute)
        known[n.output[0]] = out
        values[n.output[0]] = out
    self.node_values = values


def get(self, key):
    if key not in self.node_values:
        raise Exception
    return self.node_values[key]


# ------------------------------------------------------------------ operators
def tanh(self, x, attribute=None):
    return casadi.tanh(x)


def sigmoid(self, x, attribute=None):
    return 1 / (1 + casadi.exp(-x))


def relu(self, x, attribute=None):
    return casadi.fmax(0, x)


def elu(self, x, attribute=None):
    a = {k.name: k.f for k in attribute} if attribute is not None else {}
    return casadi.fmax(0, x) + casadi.fmin(0, a.get('alpha', 1) * (casadi.exp(x) - 1))


def matmul(self, *args, attribute=None):
    return casadi.mtimes(*args)


def add(self, *args, attribute=None):
    r = 0
    for x in args:
        r = r + x
    return r


def mul(self, *args, attribute=None):
    return args[0] * args[1]


def sub(self, *args, attribute=None):
    return args[0] - args[1]


def gemm(self, *args, attribute=None):
    p = {k.name: k.i if k.type == 2 else k.f for k in attribute}
    A, B = args[0], args[1]
    C = args[2] if len(args) > 2 else 0
    if 'transA' in p and p['transA'] == 1:
        A = casadi.transpose(A)
    if 'transB' in p and p['transB'] == 1:
        B = casadi.transpose(B)
    alpha = p['alpha'] if 'alpha' in p else 1
    beta = p['beta'] if 'beta' in p else 1
    if isinstance(C, np.ndarray) and C.ndim == 1:
        C = C.reshape(1, -1)
    return alpha * casadi.mtimes(A, B) + beta * C


def concat(self, *args, attribute=None):
    if attribute[0].i in (0, 2, -2):
        return casadi.vertcat(*args)
    return casadi.horzcat(*args)


def same(self, *args, attribute=None):
    return args[0]


def slices(self, *args, attribute=None):
    p = {k.name: k.ints for k in attribute}
    s = [slice(None, None)] * 2
    for k, a, b in zip(p.get('axes', range(len(p['starts']))), p['starts'], p['ends']):
        s[k] = slice(a, b)
    return args[0][tuple(s)]


def slices_axes(self, *args, attribute=None):
    p = {k.name: k.ints for k in attribute}
    s = [slice(None, None)] * 2
    for i, k in enumerate(p.get('axes', range(len(p['starts'])))):
        s[k] = slice(p['starts'][i], p['ends'][i])
    return args[0][tuple(s)]


def reshape(self, *args, attribute=None):
    if isinstance(args[0], np.ndarray):
        return args[0].reshape(tuple(args[1]))
    return casadi.reshape(args[0].T, tuple(args[1])[::-1]).T


def shape(self, *args, attribute=None):
    return args[0].shape
