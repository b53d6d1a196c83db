"""C03: layout and rewrite options change representation, not function."""
import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402
from vlib import graphs, ops, tfl  # noqa: E402
from vlib.ops import Fn  # noqa: E402

import numpy as np  # noqa: E402
import torch  # noqa: E402
import torch.nn as nn  # noqa: E402
import torch.nn.functional as F  # noqa: E402

C = core.Check(
    'C03',
    rule='random models converted under random layout / lowering options and executed on three inputs; the layout of every input and output is '
         'predicted from the requested options alone; non-trivial when at least one input was executed and compared; distinct by model and options',
    assumptions=['the TFLite interpreter (without delegates) computes its operators as specified'],
    preload=('torch', 'tnn', 'tf'),
)

NHWC, NCHW = (0, 2, 3, 1), (0, 3, 1, 2)


def tolerance(want):
    return 5e-5 + 2e-5 * max([float(w.abs().max()) for w in want if w.dtype.is_floating_point and w.numel()] or [0.0])


def flag_of(opt, k, ndim):
    f = opt[k] if isinstance(opt, (list, tuple)) else opt
    return ndim == 4 if f is None else bool(f)


def judge(ctx, key, model, inputs, kw, note, in_opt=None, out_opt=None, rtol=1e-3, atol=None, gens=None, inspect=None, n_ref=2):
    """Converts with the options, checks layouts and values.  `in_opt`/`out_opt` are what the user asked for."""
    r = ctx.rng
    ctx.desc = f'{note} {kw}' + (f' in={in_opt}' if in_opt is not None else '') + (f' out={out_opt}' if out_opt is not None else '')
    refs = []
    for x in [inputs] + [tfl.fresh_like(inputs, r, gens) for _ in range(n_ref)]:
        w = tfl.run_ref(model, x)
        if all(bool(torch.isfinite(o.float()).all()) and float(o.float().abs().max()) < 1e4 for o in w):
            refs.append((x, w))
    if not refs:
        ctx.skip('no finite reference')
    if kw.get('nchw_transpose') is False:
        ein, eout = False, False
    else:
        ein, eout = in_opt, out_opt
    opts = dict(kw)
    if in_opt is not None:
        opts['input_transpose'] = list(in_opt) if isinstance(in_opt, list) else in_opt
    if out_opt is not None:
        opts['output_transpose'] = list(out_opt) if isinstance(out_opt, list) else out_opt
    ctx.stage(key)
    with ctx.sut(key, 'conversion'):
        tfl.convert(model, inputs, 'm.tflite', **opts)
        it = tfl.Interp('m.tflite')
    ctx.count('conversions')
    flat_in = tfl.flatten(list(inputs))
    w0 = refs[0][1]
    fi = [flag_of(ein, k, t.dim()) for k, t in enumerate(flat_in)]
    fo = [flag_of(eout, k, t.dim()) for k, t in enumerate(w0)]
    want_in = [tuple(t.permute(NHWC).shape) if f else tuple(t.shape) for f, t in zip(fi, flat_in)]
    got_in = [tuple(d['shape']) for d in it.ins]
    if got_in != want_in:
        ctx.violation(f'{key}/input-layout', f'input shapes {got_in}, requested layout means {want_in}')
        return False
    for x, w in refs:
        arrs = [(t.permute(NHWC) if f else t).contiguous().numpy() for f, t in zip(fi, tfl.flatten(list(x)))]
        with ctx.sut(f'{key}/run', 'running the converted model'):
            got = it.run(arrs)
        want = [o.permute(NHWC) if f else o for f, o in zip(fo, w)]
        gs, ws = [tuple(g.shape) for g in got], [tuple(o.shape) for o in want]
        if len(gs) != len(ws) or any(a != b and not (math.prod(a) == math.prod(b) == 1) for a, b in zip(gs, ws)):
            ctx.violation(f'{key}/output-layout', f'output shapes {gs}, requested layout means {ws}')
            return False
        msg = tfl.compare(got, want, rtol=rtol, atol=atol if atol is not None else tolerance(w))
        if msg and atol is None and 'differ, worst' in msg:  # ill-conditioned?
            msg = tfl.compare(got, want, rtol=rtol, atol=tolerance(w) + 30 * tfl.sensitivity(model, x, w))
        if msg:
            ctx.violation(f'{key}/mismatch', msg)
            return False
    if inspect is not None:
        names = [o['op_name'] for o in it.i._get_ops_details()]
        msg = inspect(it, names)
        if msg:
            ctx.violation(f'{key}/representation', msg)
            return False
    ctx.ok(ctx.desc, ctx.desc)
    return True


# -- layouts ---------------------------------------------------------------------------------------------------------------
def rand_layout(r, tensors):
    """A documented choice for a list of tensors: None/True/False for all, or per tensor."""
    all4 = all(t.dim() == 4 for t in tensors)
    k = r.choice(['none', 'false', 'true', 'list', 'list', 'list'])
    if k == 'list' and len(set(t.data_ptr() for t in tensors)) < len(tensors):
        k = 'false'  # one tensor under two names can only have one layout; anything else is rejected with a message
    if k == 'none':
        return None
    if k == 'false':
        return False
    if k == 'true':
        return True if all4 else None
    lst = [r.choice([None, True, False, False]) if t.dim() == 4 else r.choice([None, False]) for t in tensors]
    return tuple(lst) if r.random() < 0.2 else lst


@C.family('layout', quick=900, chunk=30)
def _layout(ctx, i):
    r = ctx.rng
    b = graphs.build(r, n_steps=r.randint(1, 6), max_inputs=3, ranks=(1, 2, 3, 4, 4, 5), avoid=('softmax',))
    if b is None:
        ctx.skip('no graph')
    net, inputs, desc, tags = b
    outs = tfl.run_ref(net, inputs)
    kw = {}
    if r.random() < 0.15:
        kw['nchw_transpose'] = False
    if r.random() < 0.4:
        kw['optimize'] = r.choice([0, 1, 2, 3, 4])
    judge(ctx, 'layout', net, inputs, kw, desc, rand_layout(r, inputs), rand_layout(r, outs))


# -- lowerings -------------------------------------------------------------------------------------------------------------
def no_group_conv(it, names):
    """Every convolution left has as many input channels as its filter: nothing is grouped any more."""
    tens = {t['index']: t for t in it.i.get_tensor_details()}
    for o in it.i._get_ops_details():
        ins = list(o['inputs'])
        if o['op_name'] == 'CONV_2D':
            c, w = tens[ins[0]]['shape'][-1], tens[ins[1]]['shape'][-1]
            if c != w:
                return f'CONV_2D with {c} input channels and filters of {w} is still grouped'
        elif o['op_name'] == 'TRANSPOSE_CONV':
            c, w = tens[ins[2]]['shape'][-1], tens[ins[1]]['shape'][-1]
            if c != w:
                return f'TRANSPOSE_CONV with {c} input channels and filters of {w} is still grouped'
    return None


def act_of(r):
    return r.choice([None, None, nn.ReLU(), nn.ReLU6(), nn.Tanh(), nn.Sigmoid(), nn.LeakyReLU(0.2)])


@C.family('groupconv', quick=360, chunk=30)
def _groupconv(ctx, i):
    r = ctx.rng
    g = r.choice([2, 2, 3, 4])
    ci, co = g * r.randint(1, 3), g * r.randint(1, 3)
    dim = r.choice([2, 2, 2, 1])
    tr = r.random() < 0.4
    depth = r.random() < 0.2
    if depth:
        ci = co = g
    bias = r.random() < 0.6
    k, s, p = r.choice([1, 2, 3]), r.choice([1, 1, 2]), r.choice([0, 0, 1])
    mods = []
    if r.random() < 0.2 and dim == 2:
        mods.append(nn.BatchNorm2d(ci))
    if tr:
        p = min(p, k - 1)
        op = r.choice([0, s - 1])
        mods.append((nn.ConvTranspose1d if dim == 1 else nn.ConvTranspose2d)(ci, co, k, s, p, output_padding=op, groups=g, bias=bias))
    else:
        d = r.choice([1, 1, 2])
        mods.append((nn.Conv1d if dim == 1 else nn.Conv2d)(ci, co, k, s, p, dilation=d, groups=g, bias=bias))
    if r.random() < 0.3:
        mods.append((nn.BatchNorm1d if dim == 1 else nn.BatchNorm2d)(co))
    a = act_of(r)
    if a is not None:
        mods.append(a)
    if r.random() < 0.3:
        mods.append((nn.Conv1d if dim == 1 else nn.Conv2d)(co, g * r.randint(1, 2), 1, groups=g))
    shape = [r.choice([1, 1, 2]), ci] + [r.randint(5, 8) for _ in range(dim)]
    net = ops.rnd_affine(nn.Sequential(*mods)).eval()
    x = torch.randn(shape)
    kw = {'group_conv_rewrite': True}
    if tr and r.random() < 0.4:
        kw['conv_transpose_with_bias'] = False
    if r.random() < 0.3:
        kw['optimize'] = r.choice([0, 1, 2, 3, 4])
    if r.random() < 0.2:
        kw['tflite_micro_rewrite'] = True
    if r.random() < 0.2:
        kw['group_tensors'] = True
    tag = 'deconv' if tr else 'conv'
    judge(ctx, f'group{tag}{dim}d', net, [x], kw, f'{shape} {net}'.replace('\n', ''), inspect=no_group_conv)


@C.family('deconvbias', quick=120, chunk=30)
def _deconvbias(ctx, i):
    r = ctx.rng
    ci, co, k, s = r.randint(1, 5), r.randint(1, 5), r.randint(1, 4), r.randint(1, 2)
    dim = r.choice([2, 2, 1])
    p = r.randint(0, min(k - 1, 1))
    conv = (nn.ConvTranspose1d if dim == 1 else nn.ConvTranspose2d)(ci, co, k, s, p, output_padding=r.choice([0, s - 1]), bias=r.random() < 0.8)
    mods = [conv] + ([(nn.BatchNorm1d if dim == 1 else nn.BatchNorm2d)(co)] if r.random() < 0.4 else [])
    a = act_of(r)
    mods += [a] if a is not None else []
    net = ops.rnd_affine(nn.Sequential(*mods)).eval()
    shape = [r.choice([1, 2]), ci] + [r.randint(3, 7) for _ in range(dim)]
    kw = {'conv_transpose_with_bias': r.random() < 0.5}
    if r.random() < 0.5:
        kw['optimize'] = r.choice([0, 1, 2, 3, 4])

    def inspect(it, names):
        if kw['conv_transpose_with_bias']:
            return None
        for o in it.i._get_ops_details():
            if o['op_name'] == 'TRANSPOSE_CONV' and len(o['inputs']) > 3 and o['inputs'][3] >= 0:
                return 'a biased TRANSPOSE_CONV although conv_transpose_with_bias=False'
        return None
    judge(ctx, 'deconvbias', net, [torch.randn(shape)], kw, f'{shape} {net}'.replace('\n', ''), inspect=inspect)


@C.family('transposedims', quick=300, chunk=30)
def _transposedims(ctx, i):
    """Transposes of rank 5 and 6 whose axes collapse to at most `max_transpose_dims` blocks."""
    r = ctx.rng
    limit = r.choice([3, 4, 4, 5])
    nd = r.choice([4, 5, 5, 6, 6])
    blocks = r.randint(2, min(limit, nd))
    cuts = sorted(r.sample(range(1, nd), blocks - 1))
    groups = [list(range(a, b)) for a, b in zip([0] + cuts, cuts + [nd])]
    order = list(range(blocks))
    while order == sorted(order):
        r.shuffle(order)
    perm = [ax for g in order for ax in groups[g]]
    shape = [r.choice([1, 2, 2, 3, 4]) for _ in range(nd)]
    pre = r.choice(['none', 'relu', 'mul'])
    post = r.choice(['none', 'relu', 'add', 'reshape'])
    # avoid a 4-D layout change of the input that would add a transpose of its own: irrelevant, but keep blocks as generated
    c = torch.randn([shape[p] for p in perm][-1:])

    def f(m, x):
        if pre == 'relu':
            x = torch.relu(x)
        elif pre == 'mul':
            x = x * 1.5
        y = x.permute(*perm)
        if post == 'relu':
            y = torch.relu(y)
        elif post == 'add':
            y = y + m.c
        elif post == 'reshape':
            y = y.reshape(y.shape[0], -1)
        return y
    kw = {'max_transpose_dims': limit}
    if r.random() < 0.4:
        kw['optimize'] = r.choice([0, 1, 2, 3, 4])
    if pre == post == 'none' and (perm == list(range(nd)) or math.prod(shape) == 1):
        ctx.skip('identity')

    def inspect(it, names):
        tens = {t['index']: t for t in it.i.get_tensor_details()}
        for o in it.i._get_ops_details():
            if o['op_name'] == 'TRANSPOSE' and len(tens[o['inputs'][0]]['shape']) > limit:
                return f'TRANSPOSE of rank {len(tens[o["inputs"][0]]["shape"])} although max_transpose_dims={limit}'
        return None
    x = torch.randn(shape)
    judge(ctx, 'transposedims', Fn(f, c=c), [x], kw, f'{shape} perm{perm} {pre} {post}', False, False, inspect=inspect)


@C.family('micro', quick=120, chunk=30)
def _micro(ctx, i):
    """Concatenations of many tensors, which the micro rewrite splits into concatenations of at most ten."""
    r = ctx.rng
    n = r.choice([11, 12, 20, 21, 25, 101, 111]) if r.random() < 0.8 else r.randint(2, 10)
    if n > 100:
        s = [2]
    else:
        s = ops.shape(r, r.randint(1, 4), hi=3)
    d = r.randrange(len(s))
    stack = r.random() < 0.2 and n <= 25

    def f(m, x):
        parts = [x * float(k + 1) + float(k % 3) for k in range(n)]
        if r_share:
            parts = [parts[k % 3] for k in range(n)]
        if stack:
            return torch.stack(parts, d)
        y = torch.cat(parts, d)
        return torch.relu(y) if post else y
    r_share, post = r.random() < 0.3, r.random() < 0.5

    def inspect(it, names):
        for o in it.i._get_ops_details():
            if o['op_name'] == 'CONCATENATION' and len(o['inputs']) > 10:
                return f'CONCATENATION of {len(o["inputs"])} tensors in a micro model'
        return None
    judge(ctx, 'micro', Fn(f), [torch.randn(s)], {'tflite_micro_rewrite': True}, f'{s} cat{d} n={n} stack={stack} share={r_share} post={post}', inspect=inspect)


@C.family('activation', quick=120, chunk=30)
def _activation(ctx, i):
    r = ctx.rng
    s = ops.shape(r, r.randint(2, 4))
    legacy = r.random() < 0.5
    kind = r.choice(['gelu', 'gelu_tanh', 'linear'])
    if kind == 'linear':
        net = nn.Sequential(nn.Linear(s[-1], r.randint(1, 5)), nn.GELU(), nn.Linear(1, 1) if False else nn.Identity())
    elif kind == 'gelu':
        net = nn.GELU()
    else:
        net = nn.GELU(approximate='tanh')
    judge(ctx, f'{kind}', net.eval(), [torch.randn(s)], {'legacy_gelu': legacy}, f'{s} {kind}',
          atol=0.022 if legacy else 3e-3)  # the legacy lowering is the documented approximation x * sigmoid(1.702 x)


@C.family('grouptensors', quick=160, chunk=40)
def _grouptensors(ctx, i):
    """Equal, nearly equal and differently shaped or typed constants with equal bytes."""
    r = ctx.rng
    s = ops.shape(r, r.choice([2, 3, 4]), hi=5)
    base = torch.randn(s[-1])
    cs = [base.clone() for _ in range(4)]
    kind = r.choice(['equal', 'reshape', 'near', 'zeros', 'int'])
    if kind == 'reshape':
        cs[1] = cs[1].reshape(*([1] * (len(s) - 1)), s[-1])
    elif kind == 'near':
        cs[2][r.randrange(s[-1])] += 1e-3
    elif kind == 'zeros':
        cs[1], cs[2] = torch.zeros(s[-1]), -torch.zeros(s[-1])
    lins = [nn.Linear(s[-1], s[-1]) for _ in range(3)]
    with torch.no_grad():
        for li in lins[1:]:
            li.weight.copy_(lins[0].weight)
            if r.random() < 0.5:
                li.bias.copy_(lins[0].bias)
        if r.random() < 0.5:
            lins[2].weight.copy_(lins[0].weight.t())
    perm = r.random() < 0.5

    def f(m, x):
        y = m.l0(x + m.c0)
        y = torch.relu(y * m.c1)
        z = m.l1(y) - m.c2
        if perm:
            z = z.transpose(0, len(s) - 1)
            z = (z * 2.0).transpose(0, len(s) - 1)
        w = m.l2(z) + m.c3
        return (w, y) if two else w
    two = r.random() < 0.4
    net = Fn(f, c0=cs[0], c1=cs[1], c2=cs[2], c3=cs[3], l0=lins[0], l1=lins[1], l2=lins[2]).eval()
    kw = {'group_tensors': True}
    if r.random() < 0.4:
        kw['optimize'] = r.choice([0, 1, 2, 3, 4])

    def inspect(it, names):
        seen = {}
        live = set()
        for o in it.i._get_ops_details():
            live.update(int(x) for x in o['inputs'])
            live -= set(int(x) for x in o['outputs'])
        produced = set(int(x) for o in it.i._get_ops_details() for x in o['outputs']) | set(d['index'] for d in it.ins)
        for t in it.i.get_tensor_details():
            if t['index'] in live and t['index'] not in produced:
                a = it.i.get_tensor(t['index'])
                k = (a.tobytes(), str(a.dtype), a.shape)
                if k in seen:
                    return f'constants {seen[k]} and {t["name"]} have equal contents but are stored twice'
                seen[k] = t['name']
        return None
    judge(ctx, 'grouptensors', net, [torch.randn(s)], kw, f'{s} {kind} perm={perm} two={two}', inspect=inspect)


@C.family('constout', quick=120, chunk=30)
def _constout(ctx, i):
    """Models with outputs that do not depend on their inputs."""
    r = ctx.rng
    s = ops.shape(r, r.choice([2, 3, 4]), hi=5)
    n = r.randint(1, 2)
    cs = {f'c{k}': torch.randn(ops.shape(r, r.choice([1, 2, 3, 4, 4]), hi=4)) for k in range(n)}
    how = r.choice(['buffer', 'param', 'computed'])
    pos = r.randint(0, n)

    def f(m, x):
        y = torch.relu(x * 2.0)
        outs = []
        for k in range(n):
            c = getattr(m, f'c{k}')
            if how == 'computed':
                c = c * 2.0 + 1.0
            outs.append(c)
        outs.insert(pos, y)
        return tuple(outs)
    net = Fn(f, **({k: nn.Parameter(v) for k, v in cs.items()} if how == 'param' else cs))
    x = torch.randn(s)
    outs = tfl.run_ref(net, [x])
    oo = rand_layout(r, outs) if r.random() < 0.5 else None
    kw = {'missing_outputs_as_constants': True}
    if r.random() < 0.3:
        kw['optimize'] = r.choice([0, 1, 2, 3, 4])
    judge(ctx, 'constout', net, [x], kw, f'{s} {[list(c.shape) for c in cs.values()]} {how} pos={pos}', None, oo)


# -- combinations ----------------------------------------------------------------------------------------------------------
@C.family('mix', quick=900, chunk=30)
def _mix(ctx, i):
    r = ctx.rng
    b = graphs.build(r, n_steps=r.randint(2, 8))
    if b is None:
        ctx.skip('no graph')
    net, inputs, desc, tags = b
    kw = {}
    for k in ('bypass_elementwise_passthrough_constraint', 'rewrite_quantizable', 'tflite_micro_rewrite', 'group_tensors', 'group_conv_rewrite',
              'missing_outputs_as_constants', 'legacy_gelu', 'preserve_tensors', 'gc_when_reload', 'strict_symmetric_check'):
        if r.random() < 0.4:
            kw[k] = True
    if r.random() < 0.3:
        kw['conv_transpose_with_bias'] = False
    if r.random() < 0.3:
        kw['quantize_target_type'] = 'int8'
    if r.random() < 0.3:
        kw['fuse_quant_dequant'] = True
    if r.random() < 0.3:
        kw['optimize'] = r.choice([0, 1, 2, 3, 4])
    if r.random() < 0.15:
        kw['nchw_transpose'] = False
    outs = tfl.run_ref(net, inputs)
    judge(ctx, 'mix', net, inputs, kw, desc, rand_layout(r, inputs) if r.random() < 0.3 else None, rand_layout(r, outs) if r.random() < 0.3 else None)


if __name__ == '__main__':
    sys.exit(C.main())
