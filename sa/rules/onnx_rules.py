"""Conversion of ONNX graphs to CasADi expressions."""
from . import prop
from .spec_rules import table, ASSUME

C, O, S = 'sysid._onnxconversion.ONNXConversion', 'sysid._onnxconversion.ONNXOperations', 'onnxconv'


@prop('C26', 'Constructor, evaluation of the graph and every operator compared with the definitions of the ONNX operators in CasADi.', ASSUME, floor=25)
def onnx(ctx, R, tier):
    R.use('operator', 'an operator evaluates its ONNX definition for the given operands and attributes')
    keep = dict(keep=('reshape', 'numpy.concatenate', 'casadi.vertcat', 'T'))
    table(ctx, R, [(O, m, S, f, ['return', 'raises'], keep) for m, f in (
        ('Tanh', 'tanh'), ('Sigmoid', 'sigmoid'), ('Relu', 'relu'), ('Elu', 'elu'), ('MatMul', 'matmul'), ('Add', 'add'), ('Mul', 'mul'), ('Sub', 'sub'), ('Gemm', 'gemm'), ('Sum', 'add'),
        ('Concat', 'concat'), ('Unsqueeze', 'same'), ('Squeeze', 'same'), ('Slice', 'slices|slices_axes'), ('Reshape', 'reshape'), ('Shape', 'shape'))])
    R.use('graph', 'initial tensors, inputs and nodes are those of the graph; nodes are evaluated in graph order from the values of their own inputs')
    table(ctx, R, [
        (C, '__init__', S, 'new', ['attr ' + a for a in 'onnx_model name graph nodes initialized_tensors inputshape output_layers layers operations'.split()] + ['stores inputshape', 'stores initialized_tensors', 'raises']),
        (C, 'convert', S, 'convert|convert_lookup', ['attr input', 'attr node_values', 'stores *', 'raises']),
        (C, '__getitem__', S, 'get', ['return', 'raises'])])
