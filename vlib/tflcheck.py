"""Structural validator for TFLite files, independent of the converter (reads them with TensorFlow's own schema)."""
import math

import numpy as np

_ITEM = {}


def _types():
    from tensorflow.lite.python import schema_py_generated as S
    T = S.TensorType
    if not _ITEM:
        for n, dt in dict(FLOAT32='float32', FLOAT16='float16', INT32='int32', UINT8='uint8', INT64='int64', BOOL='bool', INT16='int16',
                          INT8='int8', FLOAT64='float64', COMPLEX64='complex64', UINT64='uint64', UINT32='uint32', UINT16='uint16').items():
            _ITEM[getattr(T, n)] = np.dtype(dt)
    return _ITEM


class Tens:
    def __init__(self, t, idx):
        self.idx = idx
        self.name = t.name.decode() if isinstance(t.name, bytes) else t.name
        self.shape = tuple(int(x) for x in t.shape) if t.shape is not None else ()
        self.dtype = _types().get(t.type)
        self.type = t.type
        self.buffer = t.buffer
        self.is_variable = bool(t.isVariable)
        q = t.quantization
        self.scale = self.zp = None
        self.qdim = 0
        if q is not None and q.scale is not None and len(q.scale):
            self.scale = np.asarray(q.scale, dtype=np.float32)
            self.zp = np.asarray(q.zeroPoint, dtype=np.int64) if q.zeroPoint is not None else np.zeros(0, np.int64)
            self.qdim = q.quantizedDimension
        self.q = q
        self.data = None  # constant contents

    def dequant(self):
        a = self.data.astype(np.float64)
        if self.scale is None:
            return a
        if len(self.scale) == 1:
            return (a - float(self.zp[0])) * float(self.scale[0])
        sh = [1] * a.ndim
        sh[self.qdim] = -1
        return (a - self.zp.reshape(sh).astype(np.float64)) * self.scale.reshape(sh).astype(np.float64)


class Op:
    def __init__(self, name, version, o):
        self.name, self.version = name, version
        self.inputs = [int(x) for x in o.inputs] if o.inputs is not None else []
        self.outputs = [int(x) for x in o.outputs] if o.outputs is not None else []
        self.intermediates = [int(x) for x in o.intermediates] if o.intermediates is not None else []
        self.options = o.builtinOptions
        self.opcode_index = o.opcodeIndex


class File:
    """Parsed model; `issues` lists everything that makes it ill-formed."""

    def __init__(self, data):
        from tensorflow.lite.python import schema_py_generated as S
        if isinstance(data, str):
            with open(data, 'rb') as f:
                data = f.read()
        self.issues = []
        bad = self.issues.append
        if data[4:8] != b'TFL3':
            bad(f'file identifier {data[4:8]!r}')
        m = S.ModelT.InitFromObj(S.Model.GetRootAs(bytearray(data), 0))
        self.model = m
        names = {v: k for k, v in vars(S.BuiltinOperator).items() if not k.startswith('_')}
        if m.version != 3:
            bad(f'schema version {m.version}')
        if len(m.subgraphs) != 1:
            bad(f'{len(m.subgraphs)} subgraphs')
        sg = m.subgraphs[0]
        nbuf, ncode = len(m.buffers), len(m.operatorCodes)
        b0 = m.buffers[0].data
        if b0 is not None and len(b0):
            bad('buffer 0 is not empty')
        for k, c in enumerate(m.operatorCodes):
            dep = c.builtinCode if c.builtinCode < 127 else 127
            if c.deprecatedBuiltinCode != dep and not (c.builtinCode >= 127 and c.deprecatedBuiltinCode == 0):
                bad(f'operator code {k}: builtin code {c.builtinCode} with deprecated code {c.deprecatedBuiltinCode}')
            if c.version < 1:
                bad(f'operator code {k}: version {c.version}')
            if c.builtinCode not in names:
                bad(f'operator code {k}: unknown operator {c.builtinCode}')
            if c.builtinCode == S.BuiltinOperator.CUSTOM and not c.customCode:
                bad(f'operator code {k}: custom operator without a name')
        self.tensors = []
        for i, t in enumerate(sg.tensors or []):
            x = Tens(t, i)
            self.tensors.append(x)
            if x.dtype is None:
                bad(f'tensor {i} {x.name}: unsupported type {x.type}')
                continue
            if not 0 <= x.buffer < nbuf:
                bad(f'tensor {i} {x.name}: buffer {x.buffer} of {nbuf}')
                continue
            if any(d < 0 for d in x.shape):
                bad(f'tensor {i} {x.name}: shape {x.shape}')
            raw = m.buffers[x.buffer].data
            n = 0 if raw is None else len(raw)
            want = math.prod(x.shape) * x.dtype.itemsize
            if x.buffer != 0:
                if n != want:
                    bad(f'tensor {i} {x.name}: buffer of {n} bytes for shape {x.shape} of {x.dtype} ({want} bytes)')
                elif n or want == 0:
                    x.data = np.frombuffer(bytes(bytearray(raw)) if n else b'', dtype=x.dtype).reshape(x.shape)
            self._check_quant(x, bad)
        n = len(self.tensors)
        self.inputs = [int(x) for x in (sg.inputs if sg.inputs is not None else [])]
        self.outputs = [int(x) for x in (sg.outputs if sg.outputs is not None else [])]
        for k, lst in (('input', self.inputs), ('output', self.outputs)):
            for x in lst:
                if not 0 <= x < n:
                    bad(f'graph {k} {x} of {n} tensors')
        if len(set(self.inputs)) != len(self.inputs):
            bad(f'graph inputs {self.inputs} are not distinct')
        self.ops = []
        producer = {}
        avail = set(self.inputs) | {t.idx for t in self.tensors if t.buffer != 0 or t.is_variable}
        for x in self.inputs:
            if 0 <= x < n and self.tensors[x].buffer != 0 and self.tensors[x].data is not None and self.tensors[x].data.size:
                bad(f'graph input {x} {self.tensors[x].name} has constant contents')
        for k, o in enumerate(sg.operators or []):
            if not 0 <= o.opcodeIndex < ncode:
                bad(f'operator {k}: code index {o.opcodeIndex} of {ncode}')
                continue
            c = m.operatorCodes[o.opcodeIndex]
            op = Op(c.customCode.decode() if c.builtinCode == S.BuiltinOperator.CUSTOM and c.customCode else names.get(c.builtinCode), c.version, o)
            self.ops.append(op)
            for j in op.inputs:
                if j == -1:
                    continue
                if not 0 <= j < n:
                    bad(f'operator {k} {op.name}: input {j} of {n} tensors')
                elif j not in avail:
                    bad(f'operator {k} {op.name}: input {j} {self.tensors[j].name} is used before it is produced')
            for j in op.outputs:
                if not 0 <= j < n:
                    bad(f'operator {k} {op.name}: output {j} of {n} tensors')
                    continue
                if j in producer:
                    bad(f'tensor {j} {self.tensors[j].name} is produced by operators {producer[j]} and {k}')
                if j in self.inputs or self.tensors[j].data is not None:
                    bad(f'operator {k} {op.name}: writes to an input or constant {j} {self.tensors[j].name}')
                producer[j] = k
                avail.add(j)
            for j in op.intermediates:
                if not 0 <= j < n:
                    bad(f'operator {k} {op.name}: intermediate {j} of {n} tensors')
        self.producer = producer
        for j in self.outputs:
            if 0 <= j < n and j not in avail:
                bad(f'graph output {j} {self.tensors[j].name} is never produced')
        used = set(producer.values())
        self.n_codes, self.n_buffers = ncode, nbuf
        del used

    @staticmethod
    def _check_quant(x, bad):
        q = x.q
        who = f'tensor {x.idx} {x.name}'
        if q is None:
            return
        ns = 0 if q.scale is None else len(q.scale)
        nz = 0 if q.zeroPoint is None else len(q.zeroPoint)
        if ns == 0 and nz == 0:
            return
        if ns != nz:
            bad(f'{who}: {ns} scales and {nz} zero points')
            return
        if not np.all(np.isfinite(x.scale)) or not np.all(x.scale > 0):
            bad(f'{who}: scale {x.scale[:4]}')
        if x.dtype.kind in 'iu' and x.dtype.itemsize <= 2:
            info = np.iinfo(x.dtype)
            if x.zp.min() < info.min or x.zp.max() > info.max:
                bad(f'{who}: zero point {x.zp[:4]} outside {x.dtype}')
        elif x.dtype == np.int32:
            if x.zp.any():
                bad(f'{who}: zero point {x.zp[:4]} of a 32-bit tensor')
        else:
            bad(f'{who}: quantization parameters on a tensor of {x.dtype}')
        if ns > 1:
            if not 0 <= x.qdim < len(x.shape):
                bad(f'{who}: quantized axis {x.qdim} of rank {len(x.shape)}')
            elif x.shape[x.qdim] != ns:
                bad(f'{who}: {ns} scales for axis {x.qdim} of shape {x.shape}')
            if x.dtype in (np.dtype('int8'), np.dtype('int16')) and x.zp.any():
                bad(f'{who}: per-channel zero points {x.zp[:4]}')


def runtime_issues(f, interp):
    """Shapes stored in the file against the shapes the runtime computed."""
    out = []
    for d in interp.i.get_tensor_details():
        i = d['index']
        if i >= len(f.tensors) or not d['name'] and i >= len(f.tensors):
            continue
        t = f.tensors[i]
        if t.dtype is None:
            continue
        try:
            a = interp.i.get_tensor(i)
        except ValueError:
            continue
        if tuple(a.shape) != t.shape and not (a.shape == () and t.shape == (1,)):  # rank 0 is stored as rank 1
            out.append(f'tensor {i} {t.name}: stored shape {t.shape}, the runtime computes {tuple(a.shape)}')
        if np.dtype(a.dtype) != t.dtype:
            out.append(f'tensor {i} {t.name}: stored type {t.dtype}, the runtime uses {a.dtype}')
    return out
