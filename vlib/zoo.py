"""Deterministic choice of (model, inputs, converter options) by number, independent of process state."""
import hashlib
import random

import torch
import torch.nn as nn

from . import graphs, ops


class Rnn(nn.Module):
    def __init__(self, kind, i, h, layers, bi, bias, bf):
        super().__init__()
        self.rnn = getattr(nn, kind)(i, h, layers, bias=bias, batch_first=bf, bidirectional=bi)
        self.fc = nn.Linear(h * (2 if bi else 1), 3)

    def forward(self, x):
        return self.fc(self.rnn(x)[0])


class Branches(nn.Module):
    """Many constants shared by several consumers, several outputs."""

    def __init__(self, n):
        super().__init__()
        self.w = nn.Parameter(torch.randn(n, n))
        self.b = nn.Parameter(torch.randn(n))
        self.fc = nn.Linear(n, n)

    def forward(self, x):
        a = torch.matmul(x, self.w) + self.b
        b = self.fc(x) * self.b
        c = torch.cat([a.relu(), b.tanh(), a - b], 1)
        d, e = torch.split(c, [1, c.shape[1] - 1], 1)
        return d, e + self.b.sum(), a + self.w.sum(), torch.matmul(b, self.w)


def rng_of(*key):
    h = int(hashlib.sha256('/'.join(map(str, key)).encode()).hexdigest()[:12], 16)
    return random.Random(h), h % (2 ** 31)


def model_for(seed, k):
    """(model, inputs, options, description) or None."""
    r, h = rng_of('zoo', seed, k)
    torch.manual_seed(h)
    random.seed(h)
    kind = r.choice(['graph', 'graph', 'graph', 'graph', 'unary', 'special', 'rnn', 'branches'])
    kw = {}
    if kind == 'graph':
        b = graphs.build(r)
        if b is None:
            return None
        net, inputs, desc, _ = b
    elif kind == 'unary':
        name = r.choice(sorted(ops.UNARY))
        m = ops.make_unary(r, name)
        if m is None:
            return None
        net, s, tag = m
        inputs, desc = [torch.randn(s)], f'{name} [{tag}] {s}'
    elif kind == 'special':
        name = r.choice(sorted(ops.SPECIAL))
        p = ops.SPECIAL[name](r)
        net, inputs, desc = p.model, p.inputs, f'{name} [{p.tag}]'
        kw.update(p.kw)
    elif kind == 'rnn':
        a = (r.choice(['LSTM', 'GRU', 'RNN']), r.randint(2, 4), r.randint(2, 4), r.randint(1, 2), r.random() < 0.5, r.random() < 0.7, r.random() < 0.5)
        net, inputs, desc = Rnn(*a), [torch.randn(3, 3, a[1])], f'rnn {a}'
        kw['unroll_rnn'] = r.random() < 0.4
        kw['separated_rnn_gate_calc'] = r.random() < 0.3
    else:
        n = r.randint(3, 5)
        net, inputs, desc = Branches(n), [torch.randn(2, n)], f'branches {n}'
    net.eval()
    outs = graphs_outputs(net, inputs)
    if any(o.numel() == 0 or any(o.shape == x.shape and torch.equal(o, x) for x in inputs if isinstance(x, torch.Tensor)) for o in outs):
        return None
    for o in ('bypass_elementwise_passthrough_constraint', 'rewrite_quantizable', 'group_tensors', 'group_conv_rewrite', 'preserve_tensors'):
        if r.random() < 0.2:
            kw[o] = True
    if r.random() < 0.3:
        kw['optimize'] = r.choice([0, 1, 2, 3, 4])
    w = r.random()
    if w < 0.2:
        kw['float16_quantization'] = True
    elif w < 0.4:
        kw.update(hybrid_quantization_from_float=True, hybrid_per_channel=r.random() < 0.5, hybrid_asymmetric_inputs=r.random() < 0.5,
                  quantize_target_type='int8')
    return net, inputs, kw, f'{kind} {desc} {kw}'


def graphs_outputs(net, inputs):
    from . import tfl
    return tfl.run_ref(net, inputs)


class Unsupported(nn.Module):
    """Models whose conversion fails, at different points."""

    def __init__(self, how):
        super().__init__()
        self.how = how
        self.fc = nn.Linear(4, 4)
        self.bn = nn.BatchNorm1d(4)

    def forward(self, x):
        y = self.bn(self.fc(x))
        if self.how == 'op':
            return torch.linalg.cholesky(y @ y.t() + torch.eye(2))
        if self.how == 'raise':
            raise ValueError('forward pass fails')
        if self.how == 'args':
            return torch.nn.functional.elu(y, alpha=0.3)
        if self.how == 'alpha':
            return torch.add(y, y, alpha=3)
        if self.how == 'path':
            return y * 2
        return torch.fft.fft(y).real


FAILURES = ['op', 'raise', 'args', 'alpha', 'path', 'fft']


def state_of(model):
    """Everything about a module that a conversion has no business changing."""
    import numpy as np
    out = {}
    for n, m in model.named_modules():
        out[f'class:{n}'] = type(m)
        out[f'training:{n}'] = m.training
        out[f'dict:{n}'] = sorted(k for k in m.__dict__)
        for a in ('_forward_hooks', '_forward_pre_hooks', '_backward_hooks', '_state_dict_hooks', '_load_state_dict_pre_hooks'):
            out[f'{a}:{n}'] = [(k, id(v)) for k, v in getattr(m, a, {}).items()]
        out[f'forward:{n}'] = m.__dict__.get('forward')
    for n, p in list(model.named_parameters(remove_duplicate=False)) + list(model.named_buffers(remove_duplicate=False)):
        out[f'tensor:{n}'] = (id(p), p.data_ptr(), p.dtype, tuple(p.shape), tuple(p.stride()), p.requires_grad, str(p.device))
        out[f'value:{n}'] = np.ascontiguousarray(p.detach().numpy()).tobytes()
    return out


def world_state():
    import random as rnd

    import numpy as np
    s = {
        'torch_rng': torch.get_rng_state().numpy().tobytes(), 'numpy_rng': repr(np.random.get_state()), 'python_rng': repr(rnd.getstate()),
        'grad': torch.is_grad_enabled(), 'inference': torch.is_inference_mode_enabled(), 'dtype': torch.get_default_dtype(),
        'threads': torch.get_num_threads(), 'deterministic': torch.are_deterministic_algorithms_enabled(), 'engine': torch.backends.quantized.engine,
        'anomaly': torch.is_anomaly_enabled(), 'autocast': torch.is_autocast_enabled(), 'mkldnn': torch.backends.mkldnn.enabled,
        'print': repr(torch._tensor_str.PRINT_OPTS), 'np_print': repr(np.get_printoptions()), 'np_err': repr(np.geterr()),
        'jit_exec': torch._C._get_graph_executor_optimize(), 'profiling': torch._C._jit_set_profiling_executor(torch._C._jit_set_profiling_executor(True)),
        'tracing': torch.jit.is_tracing(), 'default_device': str(torch.get_default_device()),
        'conv_forward': id(torch.nn.Conv2d.forward), 'module_call': id(torch.nn.Module.__call__), 'tensor_add': id(torch.Tensor.__add__),
        'relu': id(torch.nn.functional.relu), 'add': id(torch.add), 'trace': id(torch.jit.trace), 'lstm': id(torch.nn.LSTM.forward),
    }
    return s
