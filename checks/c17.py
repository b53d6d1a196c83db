"""C17: dequantizing a rewritten model gives back the float model."""
import contextlib
import copy
import io
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, progs, qgen, qtools  # noqa: E402

import torch  # noqa: E402
import torch.nn as nn  # noqa: E402

warnings.filterwarnings('ignore')
C = core.Check(
    'C17',
    rule='random networks and operator programs are rewritten by the quantizers under random settings, the generated model definition is loaded with perturbed weights and dequantized; '
         'hand-written quantizable programs over functional wrappers likewise; the result must contain no quantization modules, carry every weight and buffer value, and compute '
         'what the float model with the same weights computes in evaluation and training mode; distinct by program text and settings',
    assumptions=['the forward pass follows the same control flow for every input compared'],
    preload=('torch', 'tnn'),
)

QUANT = (torch.quantization.QuantStub, torch.quantization.DeQuantStub, torch.ao.nn.quantized.FloatFunctional,
         torch.ao.nn.quantized.QFunctional, torch.quantization.FakeQuantizeBase, torch.quantization.ObserverBase)


def dequantize(m, x, config, work):
    from tinynn.graph.quantization.quantizer import DeQuantizer
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
            return DeQuantizer(m, tuple(t.clone() for t in x), work_dir=work, config=dict(config)).dequantize()
    except SystemExit:
        raise RuntimeError('exit: ' + ' '.join(err.getvalue().strip().split('\n')[-2:])[-300:]) from None


def settings(r):
    c = {}
    if r.random() < 0.3:
        c['target'] = r.choice(['ptq', 'qat'])
    if r.random() < 0.3:
        c['remove_weights_after_load'] = True
    return c


def values(m):
    return [(k, v) for k, v in m.state_dict().items() if isinstance(v, torch.Tensor)]


def judge(ctx, key, src, x, m, ref, config, code, train=True):
    """Dequantizes m; ref computes the expected function (quantization wrappers compute plain floats outside preparation)."""
    before = copy.deepcopy(m.state_dict())
    with ctx.sut(f'{key}/dequantize', 'dequantizing'):
        try:
            f = dequantize(m, x, config, 'dq')
        except BaseException as e:
            qtools.explain(ctx, ref, x, e)
            raise
    for n, p in f.named_modules():
        if isinstance(p, QUANT):
            return ctx.violation(f'{key}/left', f'{type(p).__name__} is left in the dequantized model')
    if f.training != (config.get('target', 'qat') == 'qat'):
        return ctx.violation(f'{key}/mode', f'the dequantized model is in {"training" if f.training else "evaluation"} mode')
    pool = [(k, v) for k, v in values(f)]
    for k, v in before.items():
        if f"self.{k.split('.')[0]}" not in code[code.index('def forward'):]:
            continue  # not used
        if not any(v.shape == w.shape and v.dtype == w.dtype and torch.equal(torch.nan_to_num(v), torch.nan_to_num(w)) for _, w in pool):
            if 'num_batches_tracked' in k or 'running_' in k and config.get('target', 'qat') == 'qat':
                continue  # tracing runs the model once
            return ctx.violation(f'{key}/weights', f'no tensor of the dequantized model has the value of {k}')
        ctx.count('tensors_found')
    for name in [n for n, p in m.named_parameters()]:
        q = dict(f.named_parameters()).get(name)
        if q is not None and not torch.equal(torch.nan_to_num(q), torch.nan_to_num(before[name])):
            return ctx.violation(f'{key}/weight', f'the parameter {name} changes')
    # running statistics as recorded by tracing
    for mode in ['eval', 'train'] if train else ['eval']:
        a, b = copy.deepcopy(ref), copy.deepcopy(f)
        sa = a.state_dict()
        sb = dict(values(b))
        for k in sa:
            if 'running_' in k or 'num_batches' in k:
                for kb in (k, k.replace('.', '_', k.count('.') - 1)):
                    if kb in sb and sb[kb].shape == sa[k].shape:
                        sb[kb].copy_(sa[k])
        a.train(mode == 'train'), b.train(mode == 'train')
        for step in range(2):
            xs = x if step == 0 else [torch.randn_like(t) if t.is_floating_point() else t for t in x]
            if not qtools.stable(a, xs):
                continue
            with torch.no_grad():
                want = qtools.run(a, xs)
                with ctx.sut(f'{key}/{mode}', f'the dequantized model in {mode} mode'):
                    got = qtools.run(b, xs)
            d = qtools.differ(want, got, 1e-4)
            ctx.count('outputs_compared', len(want))
            if d:
                qtools.explain(ctx, ref, x, None)
                return ctx.violation(f'{key}/{mode}/function', f'{d} in {mode} mode{" at the second batch" if step else ""}')
    ctx.ok(src + str(config), ctx.desc)


def rewritten(ctx, made, train, fam):
    from tinynn.util.util import import_from_path
    r = ctx.rng
    if made is None:
        ctx.skip('empty program')
    src, x, feats = made
    kind = r.choice(['qat', 'qat', 'ptq'])
    m = progs.build(src)()
    if fam == 'networks':
        qgen.randomize(m, r)
    config = qtools.config(r, kind, rewrite_graph=True, inplace=False, fuse_only=r.random() < 0.5)
    config.pop('dynamic_lstm_quant', None)
    ctx.desc = f'{kind} {config} inputs {[tuple(t.shape) for t in x]}\n{src}'
    m0 = copy.deepcopy(m)
    try:
        qtools.prepare(kind, m, x, config)
    except Exception as e:
        ctx.skip('preparation raises: ' + type(e).__name__)  # the subject of another property
    path = [p for p in os.listdir('work') if p.endswith('_q.py')][0]
    src_q = open('work/' + path).read()
    cls = src_q.split('class ')[1].split('(')[0]
    build = import_from_path('qdef', os.path.abspath('work/' + path), cls)
    from tinynn.graph.tracer import model_tracer
    with model_tracer():
        q = build()
    q.load_state_dict(torch.load('work/' + path[:-3] + '.pth'))
    with torch.no_grad():
        for p in q.parameters():  # as if trained
            if p.is_floating_point():
                p.mul_(1 + 0.1 * torch.randn_like(p))
    for f in feats:
        ctx.count('feature ' + f, 1)
    ref = copy.deepcopy(q)
    # with untouched weights the rewritten model computes the original one
    c = settings(r)
    ctx.desc = f'{ctx.desc}\n{c}\n{src_q[src_q.index("class "):src_q.index("if __name__")]}'
    with torch.no_grad():
        q0 = build()
        q0.load_state_dict(torch.load('work/' + path[:-3] + '.pth'))
        if qtools.stable(m0.eval(), x) and qtools.differ(qtools.run(m0.eval(), x), qtools.run(q0.eval(), x)):
            ctx.skip('the rewritten definition differs')  # the subject of another property
    with model_tracer():
        judge(ctx, fam, src, x, q, ref, c, src_q, train)


@C.family('networks', quick=320, chunk=20)
def _nets(ctx, i):
    r = ctx.rng
    torch.manual_seed(r.randrange(1 << 30))
    rewritten(ctx, qgen.make(r, train=True, nout=r.choice([1, 2, 3])), True, 'networks')


@C.family('programs', quick=120, chunk=10)
def _progs(ctx, i):
    r = ctx.rng
    torch.manual_seed(r.randrange(1 << 30))
    rewritten(ctx, progs.make(r, r.choice([2, 4, 6]), random_ops=False, hostile=False, nested=False), False, 'programs')


@C.family('wrappers', quick=240, chunk=30)
def _wrappers(ctx, i):
    """Hand-written quantizable programs."""
    r = ctx.rng
    torch.manual_seed(r.randrange(1 << 30))
    n_in = r.choice([1, 1, 2])
    shape = r.choice([(2, 4), (1, 4, 6), (2, 4, 5, 5)])
    init, body, live, ffs = [], [], [], []
    qual = r.choice(['torch.ao.nn.quantized.FloatFunctional', 'torch.nn.quantized.FloatFunctional'])
    for k in range(n_in):
        init.append(f'self.q{k} = torch.quantization.QuantStub()')
        body.append(f'a{k} = self.q{k}(x{k})')
        live.append(f'a{k}')
    for k in range(r.choice([1, 2, 3, 5, 8])):
        kind = r.choice(['add', 'add', 'mul', 'cat', 'add_relu', 'add_relu', 'add_scalar', 'mul_scalar', 'relu', 'lin', 'relumod', 'quantpair', 'reshape', 'f_relu'])
        a, b = r.choice(live[-3:]), r.choice(live)
        v = f'v{k}'
        if kind in ('add', 'mul', 'cat', 'add_relu', 'add_scalar', 'mul_scalar'):
            f = f'f{len(ffs)}'
            if ffs and r.random() < 0.15:
                f = r.choice(ffs)
            else:
                ffs.append(f)
                init.append(f'self.{f} = {qual}()')
            if kind == 'cat':
                c = r.choice([f'[{a}, {b}]', f'({a}, {b}, {a})', f'[{b}]'])
                d = r.choice([', 1', ', dim=1', ', -1' if len(shape) == 2 else ', 1'])
                n = c.count('a') + c.count('v')
                expr = f'self.{f}.cat({c}{d})'
                body.append(f'{v} = {expr}')
                body.append(f'{v} = {v}[:, :4]' if r.random() < 0.5 or n == 1 else f'{v} = {v}.narrow(1, {r.randrange(1, 4)}, 4)')
                live.append(v)
                continue
            if kind.endswith('scalar'):
                s = r.choice([0.5, -1.25, 2, 1e-3])
                expr = f'self.{f}.{kind}({a}, {s})'
            else:
                expr = f'self.{f}.{kind}({a}, {b})'
        elif kind == 'relu':
            expr = r.choice([f'torch.relu({a})', f'{a}.relu()'])
        elif kind == 'f_relu':
            expr = f'F.relu({a})'
        elif kind == 'relumod':
            init.append(f'self.r{k} = nn.ReLU()')
            expr = f'self.r{k}({a})'
        elif kind == 'lin':
            init.append(f'self.l{k} = ' + {2: 'nn.Linear(4, 4)', 3: 'nn.Conv1d(4, 4, 3, padding=1)', 4: 'nn.Conv2d(4, 4, 1)'}[len(shape)])
            expr = f'self.l{k}({a})'
        elif kind == 'quantpair':
            init += [f'self.d{k} = torch.quantization.DeQuantStub()', f'self.s{k} = torch.quantization.QuantStub()']
            expr = f'self.s{k}(torch.{r.choice(["tanh", "sin", "abs"])}(self.d{k}({a})))'
        else:
            expr = f'{a}.reshape({tuple(reversed(shape))}).reshape({shape})'
        body.append(f'{v} = {expr}')
        live.append(v)
    outs = r.sample(live, min(len(live), r.choice([1, 1, 2, 3])))
    if live[-1] not in outs:
        outs[0] = live[-1]
    init += [f'self.o{k} = torch.quantization.DeQuantStub()' for k in range(len(outs))]
    ret = ', '.join(f'self.o{k}({o})' for k, o in enumerate(outs))
    src = ('class M(nn.Module):\n    def __init__(self):\n        super().__init__()\n' + ''.join(f'        {s}\n' for s in init)
           + f'    def forward(self, {", ".join(f"x{k}" for k in range(n_in))}):\n' + ''.join(f'        {s}\n' for s in body) + f'        return {ret}\n')
    x = [torch.randn(shape) for _ in range(n_in)]
    m = progs.build(src)()
    c = settings(r)
    ctx.desc = f'{c} {shape}\n{src}'
    judge(ctx, 'wrappers', src, x, m, copy.deepcopy(m), c, src)


if __name__ == '__main__':
    sys.exit(C.main())
