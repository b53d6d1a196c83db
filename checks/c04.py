"""C04: every emitted TFLite file is well formed and matches the model interface."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402
from vlib import graphs, ops, tfl, tflcheck  # noqa: E402

import torch  # noqa: E402

C = core.Check(
    'C04',
    rule='files written for random operators, random graphs, recurrent layers and weight-compressed or quantized models under random options; each is '
         'parsed with an independent schema and checked structurally, then executed to compare stored with computed shapes; non-trivial when at '
         'least one operator was in the file; distinct by model and options',
    assumptions=['the schema shipped with TensorFlow describes the format', 'the runtime computes output shapes of its operators correctly'],
    preload=('torch', 'tnn', 'tf'),
)

DT = {torch.float32: 'float32', torch.int64: 'int64', torch.int32: 'int32', torch.bool: 'bool', torch.uint8: 'uint8', torch.int8: 'int8',
      torch.float16: 'float16', torch.quint8: 'uint8', torch.qint8: 'int8'}


def layout(t, f):
    f = t.dim() == 4 if f is None else f
    return tuple(t.permute(0, 2, 3, 1).shape) if f else tuple(t.shape)


def judge(ctx, key, model, inputs, kw, note, io_types=None):
    ctx.desc = f'{note} {kw}'
    outs = tfl.run_ref(model, inputs)
    ctx.stage(key)
    with ctx.sut(key, 'conversion'):
        conv = tfl.convert(model, inputs, 'm.tflite', **kw)
    inspect(ctx, key, 'm.tflite', inputs, outs, kw, conv, io_types)


def inspect(ctx, key, path, inputs, outs, kw, conv, io_types=None, feed=None):
    f = tflcheck.File(path)
    ctx.count('files')
    ctx.count('operators', len(f.ops))
    ctx.count('tensors', len(f.tensors))
    if f.issues:
        ctx.violation(f'{key}/ill-formed', '; '.join(f.issues[:5]))
        return
    flag = None if kw.get('nchw_transpose') is not False else False
    wi = [layout(t, flag) for t in tfl.flatten(list(inputs))]
    wo = [layout(t, flag) for t in outs]
    gi = [f.tensors[i].shape for i in f.inputs]
    go = [f.tensors[i].shape for i in f.outputs]
    if gi != wi:
        ctx.violation(f'{key}/interface', f'inputs {gi}, the model takes {wi}')
        return
    if len(go) != len(wo) or any(a != b and not (a == (1,) and b == ()) for a, b in zip(go, wo)):
        ctx.violation(f'{key}/interface', f'outputs {go}, the model returns {wo}')
        return
    ti = [str(f.tensors[i].dtype) for i in f.inputs]
    to = [str(f.tensors[i].dtype) for i in f.outputs]
    ei = io_types[0] if io_types else [DT[t.dtype] for t in tfl.flatten(list(inputs))]
    eo = io_types[1] if io_types else [DT[t.dtype] for t in outs]
    if key in ('argmax', 'argmin', 'topk'):  # positions are 32-bit in TFLite
        eo = [{'int64': 'int32'}.get(x, x) for x in eo]
    if ti != ei or to != eo:
        ctx.violation(f'{key}/interface', f'types {ti} -> {to}, expected {ei} -> {eo}')
        return
    with ctx.sut(f'{key}/run', 'loading and running the file'):
        it = tfl.Interp(path)
        it.run([(t.permute(0, 2, 3, 1) if w != tuple(t.shape) or (flag is None and t.dim() == 4) else t).contiguous().numpy()
                for t, w in zip(tfl.flatten(list(inputs)), wi)] if feed is None else feed)
    bad = tflcheck.runtime_issues(f, it)
    if bad:
        ctx.violation(f'{key}/shape', '; '.join(bad[:5]))
        return
    ctx.ok(f'{ctx.desc}', ctx.desc)


OPTS = [{}, {}, {'nchw_transpose': False}, {'optimize': 0}, {'optimize': 2}]
UN, BN, SP = sorted(ops.UNARY), sorted(ops.BINARY), sorted(ops.SPECIAL)


def usable(ctx, model, inputs):
    outs = tfl.run_ref(model.eval(), inputs)
    if any(o.numel() == 0 for o in outs):
        ctx.skip('empty output')
    if any(o.shape == x.shape and torch.equal(o, x) for x in inputs for o in outs):
        ctx.skip('returns an input unchanged')


@C.family('operators', quick=(len(UN) + len(BN) + len(SP)) * 16, chunk=64)
def _operators(ctx, i):
    r = ctx.rng
    k = i % (len(UN) + len(BN) + len(SP))
    kw = dict(r.choice(OPTS))
    if k < len(UN):
        name = UN[k]
        m = ops.make_unary(r, name)
        if m is None:
            ctx.skip('no instance')
        model, s, tag = m
        inputs = [torch.randn(s)]
    elif k < len(UN) + len(BN):
        name = BN[k - len(UN)]
        m = ops.make_binary(r, name)
        if m is None:
            ctx.skip('no instance')
        model, s, s2, tag = m
        inputs = [torch.randn(s), torch.randn(s2)]
    else:
        name = SP[k - len(UN) - len(BN)]
        p = ops.SPECIAL[name](r)
        model, inputs, tag = p.model, p.inputs, p.tag
        kw.update(p.kw)
    usable(ctx, model, inputs)
    judge(ctx, name, model, inputs, kw, f'{name} [{tag}] {[list(x.shape) for x in inputs]}')


@C.family('graphs', quick=900, chunk=30)
def _graphs(ctx, i):
    r = ctx.rng
    b = graphs.build(r)
    if b is None:
        ctx.skip('no graph')
    net, inputs, desc, tags = b
    kw = {}
    for k in ('bypass_elementwise_passthrough_constraint', 'rewrite_quantizable', 'tflite_micro_rewrite', 'group_tensors', 'group_conv_rewrite',
              'legacy_gelu', 'preserve_tensors', 'gc_when_reload'):
        if r.random() < 0.3:
            kw[k] = True
    if r.random() < 0.3:
        kw['conv_transpose_with_bias'] = False
    if r.random() < 0.4:
        kw['optimize'] = r.choice([0, 1, 2, 3, 4])
    if r.random() < 0.15:
        kw['nchw_transpose'] = False
    w = r.random()
    if w < 0.2:
        kw['float16_quantization'] = True
    elif w < 0.45:
        kw.update(hybrid_quantization_from_float=True, hybrid_per_channel=r.random() < 0.5, hybrid_asymmetric_inputs=r.random() < 0.5,
                  quantize_target_type='int8', hybrid_conv=r.random() < 0.7)
    judge(ctx, 'graph', net, inputs, kw, desc)


class Iface(torch.nn.Module):
    """Outputs are simple functions of chosen inputs; inputs and outputs may be nested and inputs may be unused."""

    def __init__(self, plan, nest_out):
        super().__init__()
        self.plan, self.nest_out = plan, nest_out

    def forward(self, *args):
        xs = tfl.flatten(list(args))
        outs = []
        for kind, i, j, c in self.plan:
            x = xs[i]
            if kind == 'scale':
                y = x * c
            elif kind == 'sum':
                y = x + xs[j]
            elif kind == 'flat':
                y = (x * c).reshape(-1)
            elif kind == 'perm':
                y = (x * c).permute(*reversed(range(x.dim())))
            elif kind == 'again':
                y = outs[j]
            outs.append(y)
        if len(outs) == 1:
            return outs[0]
        if self.nest_out:
            k = self.nest_out
            return tuple(outs[:k]) + (tuple(outs[k:]),)
        return tuple(outs)


@C.family('interface', quick=500, chunk=50)
def _interface(ctx, i):
    """Many inputs and outputs of different shapes and types, nested, unused or repeated: order, shapes, types and values."""
    r = ctx.rng
    inputs, flat = [], []
    base = [r.randint(1, 3), r.randint(2, 4), r.randint(2, 4), r.randint(2, 4)]

    def one():
        if flat and r.random() < 0.35:
            t = torch.empty_like(r.choice(flat))
        else:
            s = [max(1, v + r.choice([-1, 0, 0, 1, 2])) for v in base[:r.choice([1, 2, 3, 4, 4, 5][:5])]]
            t = torch.empty(s, dtype=r.choice([torch.float32] * 4 + [torch.int64, torch.int32]))
        t = torch.randn(t.shape) if t.is_floating_point() else torch.randint(-50, 50, t.shape, dtype=t.dtype)
        flat.append(t)
        return t
    for _ in range(r.randint(1, 4)):
        inputs.append(one() if r.random() < 0.8 else tuple(one() for _ in range(r.randint(1, 3))))
    plan = []
    for k in range(r.randint(1, 5)):
        a = r.randrange(len(flat))
        kind = r.choice(['scale', 'scale', 'sum', 'flat', 'perm'])
        b = r.choice([j for j in range(len(flat)) if flat[j].shape == flat[a].shape and flat[j].dtype == flat[a].dtype])
        if kind == 'perm' and not 1 < flat[a].dim() < 5:
            kind = 'scale'
        if k and r.random() < 0.1:
            kind, b = 'again', r.randrange(k)
        plan.append((kind, a, b, 2 + k))
    model = Iface(plan, r.randint(1, len(plan) - 1) if len(plan) > 2 and r.random() < 0.3 else 0).eval()
    kw = dict(r.choice([{}, {}, {}, {'nchw_transpose': False}, {'optimize': 0}, {'preserve_tensors': True}]))
    ctx.desc = f'{[list(t.shape) if isinstance(t, torch.Tensor) else [list(u.shape) for u in t] for t in inputs]} {[str(t.dtype)[6:] for t in flat]} {plan}'
    judge(ctx, 'interface', model, inputs, kw, ctx.desc)
    if ctx.violations:
        return
    it = tfl.Interp('m.tflite')
    flag = kw.get('nchw_transpose') is not False
    got = it.run([(t.permute(0, 2, 3, 1) if flag and t.dim() == 4 else t).contiguous().numpy() for t in flat])
    want = tfl.run_ref(model, inputs)
    got = [g.transpose(0, 3, 1, 2) if flag and g.ndim == 4 else g for g in got]
    msg = tfl.compare(got, want)
    if msg:
        ctx.violation('interface/value', msg)
    unused = set(range(len(flat))) - {x for k, a, b, _ in plan for x in ([a, b] if k == 'sum' else [] if k == 'again' else [a])}
    ctx.count('files_with_unused_inputs', bool(unused))


if __name__ == '__main__':
    sys.exit(C.main())
