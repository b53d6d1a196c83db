"""C06: weight-only compression bounds weight error and leaves the rest intact."""
import contextlib
import io
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, graphs, ops, tfl, tflcheck  # noqa: E402

import numpy as np  # noqa: E402
import torch  # noqa: E402
import torch.nn as nn  # noqa: E402
import torch.nn.functional as F  # noqa: E402

warnings.filterwarnings('ignore')
C = core.Check(
    'C06',
    rule='random float models with fully connected, convolution and recurrent layers are converted twice, plainly and with a random compression setting; both files are parsed '
         'independently: operators and all other constants must be the same, every selected weight must be stored in the requested form within half a step, and the compressed file '
         'is executed with every compressed operator compared with its float result on the values it really received; distinct by program and settings',
    assumptions=['the TFLite reference interpreter computes its operators as specified', 'the uncompressed file is right (C01 to C04, C07)'],
    preload=('torch', 'tnn', 'tf'),
)
LSTM = {'UNIDIRECTIONAL_SEQUENCE_LSTM': range(1, 9), 'BIDIRECTIONAL_SEQUENCE_LSTM': [*range(1, 9), *range(18, 26)]}


def layers(r):
    """A model with layers of all kinds that can be compressed, among others."""
    k = r.choice(['graph', 'graph', 'mlp', 'cnn', 'shared'])
    if k == 'graph':
        for _ in range(20):
            g = graphs.build(r, n_steps=r.randint(2, 6), groups=('layer', 'layer', 'elem', 'binary', 'motif', 'layout'))
            if g is not None and any(isinstance(m, (nn.Linear, nn.Conv2d, nn.Conv1d)) for m in g[0].modules()):
                return g[0], g[1], g[2]
    n, c = r.choice([1, 1, 2, 3]), r.randint(1, 6)
    ms = []
    if k in ('cnn', 'graph'):
        hw = r.randint(5, 8)
        x = [torch.randn(n, c, hw, hw)]
        for _ in range(r.randint(1, 4)):
            if r.random() < 0.3:
                o = c
                ms.append(nn.Conv2d(c, o, 3, stride=r.choice([1, 2]), padding=1, groups=c, bias=r.random() < 0.5))
            else:
                o = r.randint(1, 8)
                ms.append(nn.Conv2d(c, o, r.choice([1, 3]), padding=1, dilation=r.choice([1, 1, 2]) if hw > 4 else 1, bias=r.random() < 0.5))
            if r.random() < 0.5:
                ms.append(nn.BatchNorm2d(o))
            ms.append(r.choice([nn.ReLU, nn.ReLU6, nn.Hardswish, nn.Identity, nn.LeakyReLU])())
            c = o
        if r.random() < 0.5:
            ms += [nn.AdaptiveAvgPool2d(1), nn.Flatten(), nn.Linear(c, r.randint(1, 6))]
    elif k == 'mlp':
        x = [torch.randn(n, c) if r.random() < 0.6 else torch.randn(n, 3, c)]
        for _ in range(r.randint(1, 4)):
            o = r.randint(1, 8)
            ms += [nn.Linear(c, o, bias=r.random() < 0.7), r.choice([nn.ReLU, nn.Tanh, nn.Identity, nn.ReLU6])()]
            c = o
    else:
        lin, conv = nn.Linear(c, c), nn.Conv2d(c, c, 1)
        x = [torch.randn(n, c, 4, c)]
        mode = r.choice(['linear', 'conv', 'tied', 'matmul'])

        class M(nn.Module):
            def __init__(self):
                super().__init__()
                self.lin, self.conv = lin, conv

            def forward(self, x):
                if mode == 'linear':
                    return self.lin(torch.relu(self.lin(x)))
                if mode == 'conv':
                    return self.conv(torch.tanh(self.conv(x)))
                if mode == 'tied':
                    return F.conv2d(self.lin(x), self.lin.weight[:, :, None, None])
                return torch.matmul(F.linear(x, self.lin.weight), self.lin.weight)
        m = M()
        return m, x, f'shared {mode} c={c}'
    m = nn.Sequential(*ms)
    return m, x, f'{m}'


def scramble(m, r):
    """Weights of very different magnitudes, dead channels, constant ones."""
    for mod in m.modules():
        w = getattr(mod, 'weight', None)
        if isinstance(mod, (nn.Linear, nn.Conv2d, nn.Conv1d)) and isinstance(w, nn.Parameter):
            with torch.no_grad():
                k = r.random()
                if k < 0.3:
                    w *= torch.exp(torch.randn(w.shape[0])).reshape([-1] + [1] * (w.dim() - 1))
                elif k < 0.45:
                    w[r.randrange(w.shape[0])] = 0
                elif k < 0.55:
                    w.abs_()
                elif k < 0.65:
                    w.neg_().abs_().neg_()
                elif k < 0.7:
                    w.zero_()
                elif k < 0.8:
                    w *= r.choice([1e-3, 10.0])
                if r.random() < 0.3:
                    w.view(-1)[r.randrange(w.numel())] *= 20
        if isinstance(mod, nn.modules.batchnorm._BatchNorm) and mod.running_mean is not None:
            mod.running_mean.normal_()
            mod.running_var.uniform_(0.5, 2)


def opts_of(o):
    if o.options is None:
        return {}
    return {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in vars(o.options).items() if k != 'asymmetricQuantizeInputs'}


def base_options(r):
    kw = {'group_conv_rewrite': True}
    if r.random() < 0.25:
        kw['nchw_transpose'] = False
    if r.random() < 0.25:
        kw['optimize'] = r.choice([0, 1, 2, 3, 4])
    if r.random() < 0.2:
        kw['group_tensors'] = True
    return kw


def hybrid_options(r):
    h = {'hybrid_quantization_from_float': True}
    if r.random() < 0.5:
        h['hybrid_per_channel'] = True
    if r.random() < 0.5:
        h['hybrid_asymmetric_inputs'] = r.random() < 0.5
    t = r.choice(['default', 'int8', 'int8', 'uint8'])
    if h.get('hybrid_per_channel'):
        t = 'int8'
    if t != 'default':
        h['hybrid_quantize_weight_type'] = t
    elif not h.get('hybrid_per_channel'):
        h['quantize_target_type'] = t = r.choice(['int8', 'uint8'])
    if r.random() < 0.3:
        h['hybrid_conv'] = False
    if r.random() < 0.25:
        h['hybrid_gen_single_op_models'] = True
    return h, t


def weights_of(o, h):
    """Positions of the weights of an operator that may be compressed."""
    if o.name in LSTM:
        return LSTM[o.name]
    if o.name == 'FULLY_CONNECTED':
        return [1]
    if o.name == 'CONV_2D' and h.get('hybrid_conv', True):
        return [1]
    if o.name == 'DEPTHWISE_CONV_2D' and h.get('hybrid_conv', True) and h.get('hybrid_per_channel'):
        return [1]
    return []


def same_structure(ctx, a, b, skip=()):
    """The operators of both files pair up; returns the pairs or None."""
    bops = {b.tensors[o.outputs[0]].name: o for o in b.ops if o not in skip}
    if sorted(o.name for o in a.ops) != sorted(o.name for o in bops.values()) or any(bops.get(a.tensors[o.outputs[0]].name, o).name != o.name for o in a.ops):
        ctx.violation('operators', f'compression changes the operators: {[o.name for o in a.ops]} became {[o.name for o in bops.values()]}')
        return None
    pairs = []
    for oa in a.ops:
        ob = bops.get(a.tensors[oa.outputs[0]].name)
        if ob is None:
            ctx.violation('operators', f'{a.tensors[oa.outputs[0]].name} is no longer computed')
            return None
        pairs.append((oa, ob))
        if opts_of(oa) != opts_of(ob):
            ctx.violation('operators', f'{oa.name} changes its options: {opts_of(oa)} became {opts_of(ob)}')
            return None
        if [(a.tensors[t].name, a.tensors[t].shape, a.tensors[t].dtype) for t in oa.outputs] != [(b.tensors[t].name, b.tensors[t].shape, b.tensors[t].dtype) for t in ob.outputs]:
            ctx.violation('operators', f'{oa.name} changes its results')
            return None
        if len(oa.inputs) != len(ob.inputs):
            ctx.violation('operators', f'{oa.name} changes its number of inputs')
            return None
    for k in ('inputs', 'outputs'):
        u, v = ([(f.tensors[t].name, f.tensors[t].shape, f.tensors[t].dtype) for t in getattr(f, k)] for f in (a, b))
        if u != v:
            ctx.violation('interface', f'{k} {u} became {v}')
            return None
    return pairs


def same_const(ta, tb):
    return ta.dtype == tb.dtype and ta.shape == tb.shape and (ta.scale is None) == (tb.scale is None) and (ta.data is None) == (tb.data is None) and \
        (ta.data is None or ta.data.tobytes() == tb.data.tobytes()) and ta.is_variable == tb.is_variable


def compressed(ctx, who, w, t, axis, dtype):
    """A stored weight against the original values."""
    if t.dtype != np.dtype(dtype):
        return ctx.violation('type', f'{who} has type {t.dtype} instead of {dtype}')
    if t.data is None or t.scale is None:
        return ctx.violation('type', f'{who} has no contents or no scale')
    if t.shape != w.shape:
        return ctx.violation('shape', f'{who} has shape {t.shape} instead of {w.shape}')
    if t.zp.any():
        return ctx.violation('zero-point', f'{who} has zero points {t.zp[:4]}')
    n = 1 if axis is None else w.shape[axis]
    if len(t.scale) != n or (n > 1 and t.qdim != axis % w.ndim):
        return ctx.violation('granularity', f'{who} has {len(t.scale)} scales along axis {t.qdim}; {n} along {axis} expected')
    sh = [1] * w.ndim
    if n > 1:
        sh[axis] = n
    q = t.data.view(np.int8).astype(np.float64)  # the runtime reads unsigned weights of such operators as signed ones
    s = t.scale.astype(np.float64).reshape(sh)
    e = np.abs(q * s - w.astype(np.float64))
    if (e > s / 2 * (1 + 1e-4) + 1e-12).any():
        k = np.unravel_index(np.argmax(e / s), e.shape)
        return ctx.violation('error', f'{who}: weight {k} is {w[k]} and is stored as {q[k]} (step {np.broadcast_to(s, w.shape)[k]}), off by {(e / s).max():.3f} steps')
    top = np.abs(w).max(axis=tuple(i for i in range(w.ndim) if n == 1 or i != axis % w.ndim), keepdims=True).astype(np.float64)
    if (s.reshape(top.shape if n > 1 else [1] * w.ndim) > np.maximum(top / 127 * (1 + 1e-5), 1.3e-7)).any():
        return ctx.violation('step', f'{who}: step {t.scale[:4]} is larger than needed for the largest weights {top.ravel()[:4]}')
    ctx.count('compressed_weights', w.size)
    return q * s


def pack(f, consts):
    """The file with other contents of some constants (by tensor index)."""
    import copy
    import flatbuffers
    from tensorflow.lite.python import schema_py_generated as S
    m = copy.deepcopy(f.model)
    for i, v in consts.items():
        buf = S.BufferT()
        buf.data = np.frombuffer(np.ascontiguousarray(v).tobytes(), np.uint8)
        m.buffers.append(buf)
        m.subgraphs[0].tensors[i].buffer = len(m.buffers) - 1
    b = flatbuffers.Builder(1 << 16)
    b.Finish(m.Pack(b), b'TFL3')
    return bytes(b.Output())


def act(y, k):
    return {0: lambda y: y, 1: F.relu, 2: lambda y: y.clamp(-1, 1), 3: F.relu6, 4: torch.tanh}[k](y)


def float_result(o, x, w, b):
    """What the operator computes in float, and how far the result can move when every input moves by one."""
    x, w = torch.from_numpy(np.asarray(x, np.float64)), torch.from_numpy(np.asarray(w, np.float64))
    b = None if b is None else torch.from_numpy(np.asarray(b, np.float64))
    opt = o.options
    if o.name == 'FULLY_CONNECTED':
        xx = x.reshape(-1, w.shape[1])
        rng = torch.stack([xx.amin(1).clamp(max=0), xx.amax(1).clamp(min=0)])
        step = torch.maximum((rng[1] - rng[0]) / 255, torch.maximum(rng[1], -rng[0]) / 127)
        y = F.linear(xx, w, b)
        gain = step[:, None] * w.abs().sum(1)[None]
        return act(y, opt.fusedActivationFunction).numpy(), gain.numpy()
    ih, iw = x.shape[1:3]
    kh, kw = w.shape[1:3]
    st, di = (opt.strideH, opt.strideW), (opt.dilationHFactor, opt.dilationWFactor)
    p = []
    for size, k, s, d in ((iw, kw, st[1], di[1]), (ih, kh, st[0], di[0])):
        if opt.padding == 0:
            total = max(0, (-(-size // s) - 1) * s + (k - 1) * d + 1 - size)
            p += [total // 2, total - total // 2]
        else:
            p += [0, 0]
    xn = F.pad(x.permute(0, 3, 1, 2), p)
    if o.name == 'CONV_2D':
        wt, groups = w.permute(0, 3, 1, 2), xn.shape[1] // w.shape[3]
    else:
        wt, groups = w.permute(3, 0, 1, 2), xn.shape[1]
    y = F.conv2d(xn, wt, b, st, 0, di, groups).permute(0, 2, 3, 1)
    flat = x.reshape(x.shape[0], -1)
    rng = torch.stack([flat.amin(1).clamp(max=0), flat.amax(1).clamp(min=0)])
    step = torch.maximum((rng[1] - rng[0]) / 255, torch.maximum(rng[1], -rng[0]) / 127)
    g = wt.abs().sum((1, 2, 3))
    return act(y, opt.fusedActivationFunction).numpy(), (step[:, None, None, None] * g[None, None, None]).expand(y.shape).numpy()


def run(ctx, what, path, arrs):
    with ctx.sut(f'{what}', 'executing the file'):
        it = tfl.Interp(path)
        it.reset()
        out = it.run(arrs)
    return it, out


def judge_ops(ctx, pairs, b, it, done):
    """Every compressed operator against its float result on the values it received."""
    for oa, ob in pairs:
        if (id(ob), 1) not in done or ob.name in LSTM:
            continue
        x = it.i.get_tensor(ob.inputs[0])
        bias = b.tensors[ob.inputs[2]].data if len(ob.inputs) > 2 and ob.inputs[2] >= 0 else None
        want, tol = float_result(ob, x, done[id(ob), 1], bias)
        got = it.i.get_tensor(ob.outputs[0]).reshape(want.shape)
        tol = tol * 1.1 + 1e-4 * (1e-3 + np.abs(want).max())
        e = np.abs(got - want)
        ctx.count('operators_executed')
        if not (e <= tol).all():
            k = np.unravel_index(np.argmax(e - tol), e.shape)
            return ctx.violation('result', f'{ob.name} {b.tensors[ob.outputs[0]].name}: {got[k]} instead of {want[k]} (tolerance {tol[k]:.3g})')


def hybrid(ctx, model, x, kw, h, dtype, config=None):
    r = ctx.rng
    with contextlib.redirect_stderr(io.StringIO()):
        try:
            tfl.convert(model, x, 'a.tflite', **kw)
        except Exception as e:
            ctx.skip('not convertible: ' + core.norm_msg(e)[:50])
        a = tflcheck.File('a.tflite')
        if config is not None:
            names = [a.tensors[o.outputs[0]].name for o in a.ops if weights_of(o, h)]
            h = dict(h, hybrid_config={n: r.random() < 0.5 for n in names if r.random() < 0.8})
        ctx.desc += f' {h}'
        with ctx.sut('convert', 'conversion'):
            conv = tfl.convert(model, x, 'b.tflite', **kw, **h)
    b = tflcheck.File('b.tflite')
    if b.issues:
        return ctx.violation('file', f'ill-formed: {b.issues[:3]}')
    pairs = same_structure(ctx, a, b)
    if pairs is None:
        return
    done, patch = {}, {}
    for oa, ob in pairs:
        name = a.tensors[oa.outputs[0]].name
        wi = list(weights_of(oa, h))
        if h.get('hybrid_config', {}).get(name, True) is False:
            wi = []
        if any(oa.inputs[i] < 0 or a.tensors[oa.inputs[i]].data is None or a.tensors[oa.inputs[i]].dtype != np.float32 for i in wi):
            wi = []  # computed weights
        if wi and oa.name in LSTM or oa.name == 'FULLY_CONNECTED' and wi:
            have = ob.options.asymmetricQuantizeInputs
            if bool(have) != h.get('hybrid_asymmetric_inputs', True):
                return ctx.violation('inputs', f'{oa.name} {name}: asymmetricQuantizeInputs is {have}')
        for i, (ia, ib) in enumerate(zip(oa.inputs, ob.inputs)):
            if (ia < 0) != (ib < 0):
                return ctx.violation('operators', f'input {i} of {name} appears or disappears')
            if ia < 0:
                continue
            ta, tb = a.tensors[ia], b.tensors[ib]
            if i in wi:
                axis = None
                if h.get('hybrid_per_channel') and oa.name in ('CONV_2D', 'DEPTHWISE_CONV_2D'):
                    axis = 0 if oa.name == 'CONV_2D' else -1
                v = compressed(ctx, f'input {i} of {oa.name} {name}', ta.data, tb, axis, dtype)
                if v is None:
                    return
                done[id(ob), i] = v
                patch[ia] = v.astype(np.float32)
            else:
                if (ta.data is not None or tb.data is not None) and not same_const(ta, tb):
                    return ctx.violation('constants', f'input {i} of {oa.name} {name}, which is not to be compressed, became {tb.dtype}{list(tb.shape)}')
                if ta.data is None and ta.name != tb.name:
                    return ctx.violation('operators', f'input {i} of {oa.name} {name} is {tb.name} instead of {ta.name}')
                ctx.count('other_inputs')
    for k in range(2):
        arrs = tfl.to_arrays(x if k == 0 else tfl.fresh_like(x, r), conv)
        it, out = run(ctx, 'run', 'b.tflite', arrs)
        judge_ops(ctx, pairs, b, it, done)
        if any(o.name in LSTM for o in b.ops):
            _, ref = run(ctx, 'run', pack(a, patch), arrs)
            for g, w in zip(out, ref):
                if not np.abs(g - w).max() <= 0.1 * (0.1 + np.abs(w).max()):
                    return ctx.violation('result', f'recurrent model: outputs differ by {np.abs(g - w).max():.3g} of {np.abs(w).max():.3g}')
            ctx.count('recurrent_runs')
    ctx.count('weights_compressed', len(done))
    if done or h.get('hybrid_config'):
        ctx.ok(ctx.desc, ctx.desc)
    if h.get('hybrid_gen_single_op_models'):
        singles(ctx, a, b, pairs, done)


def singles(ctx, a, b, pairs, done):
    """Files with single operators, before and after compression."""
    r = ctx.rng
    for oa, ob in pairs:
        if not any(k == id(ob) for k, _ in done):
            continue
        idx = b.ops.index(ob)
        for kind, f, o in (('float', a, oa), ('dq', b, ob)):
            path = f'b_{kind}_{idx}.tflite'
            if not os.path.exists(path):
                return ctx.violation('single/missing', f'{path} is missing; {sorted(os.listdir("."))}')
            g = tflcheck.File(path)
            if g.issues:
                return ctx.violation('single/file', f'{path} is ill-formed: {g.issues[:3]}')
            if len(g.ops) != 1 or g.ops[0].name != o.name or opts_of(g.ops[0]) != opts_of(o):
                return ctx.violation('single/operator', f'{path} has {[x.name for x in g.ops]} instead of {o.name}')
            for u, v in zip(o.inputs, g.ops[0].inputs):
                if (u < 0) != (v < 0) or u >= 0 and (f.tensors[u].name != g.tensors[v].name or not same_const(f.tensors[u], g.tensors[v])):
                    return ctx.violation('single/inputs', f'{path}: input {f.tensors[u].name} differs')
            try:
                it = tfl.Interp(path)
                arrs = [np.random.RandomState(r.randrange(1 << 30)).randn(*d['shape']).astype(np.float32) for d in it.ins]
                it.run(arrs)
            except (RuntimeError, ValueError) as e:
                return ctx.violation('single/run', f'{path}: {core.norm_msg(e)[:100]}')
            ctx.count('single_operator_files')
            if kind == 'dq' and o.name not in LSTM:
                judge_ops(ctx, [(oa, g.ops[0])], g, it, {(id(g.ops[0]), 1): done[id(ob), 1]})


@C.family('hybrid', quick=420, chunk=20)
def _hybrid(ctx, i):
    r = ctx.rng
    m, x, d = layers(r)
    m.eval()
    scramble(m, r)
    h, dtype = hybrid_options(r)
    kw = base_options(r)
    ctx.desc = f'{d} {[tuple(t.shape) for t in x]} {kw}'
    hybrid(ctx, m, x, kw, h, dtype, True if r.random() < 0.35 else None)


class Rec(nn.Module):
    def __init__(self, r, i, hd, bi, layers, bf):
        super().__init__()
        self.rnn = nn.LSTM(i, hd, layers, bidirectional=bi, batch_first=bf, bias=r.random() < 0.7)
        self.fc = nn.Linear(hd * (2 if bi else 1), 3) if r.random() < 0.6 else None
        self.pre = nn.Linear(i, i) if r.random() < 0.3 else None

    def forward(self, x):
        if self.pre is not None:
            x = torch.tanh(self.pre(x))
        y = self.rnn(x)[0]
        return y if self.fc is None else self.fc(y)


@C.family('recurrent', quick=120, chunk=15)
def _recurrent(ctx, i):
    r = ctx.rng
    n, bi = r.choice([1, 1, 2]), r.random() < 0.4
    a = r.randint(1, 8), r.randint(1, 8), bi, r.choice([1, 2]), r.random() < 0.5
    m = Rec(r, *a).eval()
    t = r.randint(1, 5)
    x = [torch.randn((n, t, a[0]) if a[4] else (t, n, a[0]))]
    kw = base_options(r)
    if bi and (a[4] and n > 1 or r.random() < 0.5):
        kw['map_bilstm_to_lstm'] = True
    h, dtype = hybrid_options(r)
    ctx.desc = f'{m} {tuple(x[0].shape)} {kw}'
    hybrid(ctx, m, x, kw, h, dtype, True if r.random() < 0.3 else None)


@C.family('dynamic', quick=120, chunk=15)
def _dynamic(ctx, i):
    """Models that PyTorch has already quantized dynamically."""
    from tinynn.graph.quantization.quantizer import DynamicQuantizer
    r = ctx.rng
    rec = r.random() < 0.4
    if rec:
        bi = r.random() < 0.4
        n, bf = r.choice([1, 1, 2]), r.random() < 0.5
        m = nn.Sequential()
        m = Rec(r, 5, 4, bi, r.choice([1, 2]), bf)
        if m.rnn.bias is False:
            ctx.skip('needs biases')
        x = [torch.randn((n, 3, 5) if bf else (3, n, 5))]
    else:
        x = [torch.randn(r.choice([(1, 5), (3, 5), (2, 3, 5)]))]
        ms, c = [], 5
        for _ in range(r.randint(1, 4)):
            o = r.randint(1, 8)
            ms += [nn.Linear(c, o, bias=r.random() < 0.7), r.choice([nn.ReLU, nn.Tanh, nn.Identity, nn.ReLU6, nn.Sigmoid])()]
            c = o
        m = nn.Sequential(*ms)
    m.eval()
    scramble(m, r)
    kw = base_options(r)
    kw.pop('optimize', None)
    if rec and (bf and n > 1 or r.random() < 0.5):
        kw['map_bilstm_to_lstm'] = True
    dt = r.choice(['int8', 'uint8'])
    kw['hybrid_quantize_weight_type'] = dt
    kw['hybrid_asymmetric_inputs'] = r.random() < 0.5
    own = r.random() < 0.5
    ctx.desc = f'{m} {tuple(x[0].shape)} {kw} {own}'
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        try:
            if own:
                q = DynamicQuantizer(m, x[0], work_dir='work', config={'asymmetric': False, 'per_tensor': True})
                qm = q.convert(q.quantize().eval())
            else:
                qm = torch.ao.quantization.quantize_dynamic(m, {nn.Linear, nn.LSTM})
            want = qm(x[0])
        except Exception as e:
            ctx.skip('not quantizable: ' + core.norm_msg(e)[:60])
        pool = {}
        for mod in qm.modules():
            ws = []
            if type(mod).__name__ in ('Linear', 'LinearReLU') and 'quantized' in type(mod).__module__:
                ws = [mod.weight()]
            elif type(mod).__name__ == 'LSTM' and 'quantized' in type(mod).__module__:
                for v in mod._all_weight_values:
                    st = v.param.__getstate__()[0][4]
                    for p in st:
                        ws += list(torch.chunk(p.__getstate__()[0][0], 4, 0)) if hasattr(p, '__getstate__') else []
            for w in ws:
                pool[w.int_repr().contiguous().numpy().tobytes(), tuple(w.shape)] = (np.float32(w.q_scale()), w.q_zero_point())
        with ctx.sut('dynamic/convert', 'conversion'):
            conv = tfl.convert(qm, x, 'b.tflite', **kw)
    b = tflcheck.File('b.tflite')
    if b.issues:
        return ctx.violation('dynamic/file', f'ill-formed: {b.issues[:3]}')
    done, n = {}, 0
    for o in b.ops:
        for k in LSTM.get(o.name, [1] if o.name == 'FULLY_CONNECTED' else []):
            t = b.tensors[o.inputs[k]]
            if t.dtype != np.dtype(dt):
                return ctx.violation('dynamic/type', f'weight {k} of {o.name} has type {t.dtype} instead of {dt}')
            p = pool.get((t.data.tobytes(), t.shape))
            if p is None or p != (t.scale[0], int(t.zp[0])):
                return ctx.violation('dynamic/weights', f'weight {k} of {o.name} with scale {t.scale[0]} and zero point {t.zp[0]} is not one of the model ({p})')
            done[id(o), k] = t.data.view(np.int8).astype(np.float64) * t.scale[0]
            n += 1
        if (o.name in LSTM or o.name == 'FULLY_CONNECTED') and bool(o.options.asymmetricQuantizeInputs) != kw['hybrid_asymmetric_inputs']:
            return ctx.violation('dynamic/inputs', f'{o.name}: asymmetricQuantizeInputs is {o.options.asymmetricQuantizeInputs}')
    if n == 0:
        return ctx.violation('dynamic/weights', 'nothing is compressed')
    for k in range(2):
        xx = x if k == 0 else tfl.fresh_like(x, r)
        it, out = run(ctx, 'dynamic/run', 'b.tflite', tfl.to_arrays(xx, conv))
        judge_ops(ctx, [(o, o) for o in b.ops], b, it, done)
        want = [t.numpy() for t in tfl.run_ref(qm, xx)]
        out = tfl.from_arrays(out, conv)
        for g, w in zip(out, want):
            if g.shape != w.shape or not np.abs(g - w).max() <= 0.15 * (0.2 + np.abs(w).max()):
                return ctx.violation('dynamic/result', f'outputs {g.ravel()[:4]} instead of {w.ravel()[:4]}')
        ctx.count('dynamic_runs')
    ctx.count('weights_compressed', n)
    ctx.ok(ctx.desc, ctx.desc)


@C.family('half', quick=200, chunk=20)
def _half(ctx, i):
    r = ctx.rng
    if r.random() < 0.2:
        bi = r.random() < 0.4
        m, x, d = Rec(r, 3, 4, bi, 1, False), [torch.randn(3, 1, 3)], 'lstm'
        d = str(m)
    else:
        m, x, d = layers(r)
    m.eval()
    scramble(m, r)
    kw = base_options(r)
    both = r.random() < 0.2
    h = {'float16_quantization': True}
    if both:
        h.update(hybrid_options(r)[0])
    ctx.desc = f'{d} {[tuple(t.shape) for t in x]} {kw} {h}'
    with contextlib.redirect_stderr(io.StringIO()):
        try:
            tfl.convert(m, x, 'a.tflite', **kw, **{k: v for k, v in h.items() if k != 'float16_quantization'})
        except Exception as e:
            ctx.skip('not convertible: ' + core.norm_msg(e)[:50])
        a = tflcheck.File('a.tflite')
        with ctx.sut('half/convert', 'conversion'):
            conv = tfl.convert(m, x, 'b.tflite', **kw, **h)
    b = tflcheck.File('b.tflite')
    if b.issues:
        return ctx.violation('half/file', f'ill-formed: {b.issues[:3]}')
    deq = {o.outputs[0]: b.tensors[o.inputs[0]] for o in b.ops if o.name == 'DEQUANTIZE' and b.tensors[o.inputs[0]].dtype == np.float16}
    pairs = same_structure(ctx, a, b, [o for o in b.ops if o.name == 'DEQUANTIZE' and o.outputs[0] in deq])
    if pairs is None:
        return
    patch = {}
    for oa, ob in pairs:
        name = a.tensors[oa.outputs[0]].name
        for k, (ia, ib) in enumerate(zip(oa.inputs, ob.inputs)):
            if (ia < 0) != (ib < 0):
                return ctx.violation('half/operators', f'input {k} of {name} appears or disappears')
            if ia < 0:
                continue
            ta, tb = a.tensors[ia], b.tensors[ib]
            if ta.data is not None and ta.dtype == np.float32 and not ta.is_variable:
                if ib not in deq:
                    return ctx.violation('half/constants', f'input {k} of {oa.name} {name} is not stored in half precision')
                t = deq[ib]
                with np.errstate(over='ignore'):
                    want = ta.data.astype(np.float16)
                if t.data is None or t.shape != ta.shape or t.data.tobytes() != want.tobytes():
                    return ctx.violation('half/rounding', f'input {k} of {oa.name} {name}: {None if t.data is None else t.data.ravel()[:4]} for {ta.data.ravel()[:4]}')
                ctx.count('half_constants', ta.data.size)
                patch[ia] = want.astype(np.float32)
            elif (ta.data is not None or tb.data is not None) and not same_const(ta, tb):
                return ctx.violation('half/constants', f'input {k} of {oa.name} {name} became {tb.dtype}{list(tb.shape)}')
            elif ta.data is None and ta.name != tb.name:
                return ctx.violation('half/operators', f'input {k} of {oa.name} {name} is {tb.name} instead of {ta.name}')
    base = pack(a, patch)
    for k in range(2):
        arrs = tfl.to_arrays(x if k == 0 else tfl.fresh_like(x, r), conv)
        _, out = run(ctx, 'half/run', 'b.tflite', arrs)
        _, ref = run(ctx, 'half/run', base, arrs)
        for g, w in zip(out, ref):
            if not np.array_equal(np.isfinite(g), np.isfinite(w)) or not np.allclose(g, w, rtol=1e-4, atol=1e-5 * (1 + np.abs(w[np.isfinite(w)]).max(initial=0)), equal_nan=True):
                return ctx.violation('half/result', f'outputs {g.ravel()[:4]} instead of {w.ravel()[:4]}, computed with the rounded constants in float')
        ctx.count('half_runs')
    if patch:
        ctx.ok(ctx.desc, ctx.desc)


if __name__ == '__main__':
    sys.exit(C.main())
