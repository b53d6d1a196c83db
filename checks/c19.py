"""C19: quantization-aware replacement modules equal the modules they replace."""
import copy
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402

import torch  # noqa: E402
import torch.nn as nn  # noqa: E402

warnings.filterwarnings('ignore')
C = core.Check(
    'C19',
    rule='every replacement module with random hyper-parameters against the float module it is built from: outputs, gradients of inputs and parameters, running '
         'statistics over several training steps, in training and evaluation mode, converted back to float; distinct by hyper-parameters and input shape',
    assumptions=['observers on or off, fake quantization disabled'],
)


def close(a, b, tol=1e-4):
    return a.shape == b.shape and torch.allclose(a, b, rtol=tol, atol=tol * max(1.0, float(b.abs().max()) if b.numel() else 0.0))


def compare(ctx, key, ref, new, xs, call=lambda m, *x: m(*x), pairs=None, tol=1e-4, train=False):
    """Outputs, input gradients and parameter gradients (pairs: [(parameter of ref, parameter of new)])."""
    a = [x.clone().requires_grad_(True) for x in xs]
    b = [x.clone().requires_grad_(True) for x in xs]
    ya = call(ref, *a)
    with ctx.sut(key + '/forward', 'the replacement module'):
        yb = call(new, *b)
    ya = [ya] if isinstance(ya, torch.Tensor) else list(ya)
    yb = [yb] if isinstance(yb, torch.Tensor) else list(yb)
    if len(ya) != len(yb):
        ctx.violation(key + '/outputs', f'{len(yb)} outputs instead of {len(ya)}')
        return False
    ok = True
    for k, (p, q) in enumerate(zip(ya, yb)):
        if not close(q, p, tol):
            ctx.violation(key + '/value', f'output {k} differs: {tuple(p.shape)} {tuple(q.shape)} ' + (f'by {float((p - q).abs().max())}' if p.shape == q.shape else ''))
            ok = False
    if not ok:
        return False
    ws = [torch.randn_like(p) for p in ya]
    la, lb = sum((p * w).sum() for p, w in zip(ya, ws)), sum((q * w).sum() for q, w in zip(yb, ws))
    pa = [p for p, _ in pairs or []]
    pb = [q for _, q in pairs or []]
    ga = torch.autograd.grad(la, a + pa, allow_unused=True)
    with ctx.sut(key + '/backward', 'the backward pass of the replacement module'):
        gb = torch.autograd.grad(lb, b + pb, allow_unused=True)
    for k, (p, q) in enumerate(zip(ga, gb)):
        if p is None or q is None:
            if (p is None) != (q is None) and (p if p is not None else q).abs().max() > 0:
                ctx.violation(key + '/gradient', f'gradient {k} exists on one side only')
            continue
        # the derivative at the kink of an activation is a matter of convention
        if not close(q, p, tol * 10):
            ctx.violation(key + '/gradient', f'gradient {k} ({"input" if k < len(a) else "parameter"}) differs: {tuple(p.shape)} {tuple(q.shape)} ' + (f'by {float((p - q).abs().max())}' if p.shape == q.shape else ''))
            ok = False
    ctx.count('outputs_compared', len(ya))
    ctx.count('gradients_compared', len(ga))
    return ok


def rnd(shape, r):
    x = torch.randn(*shape) * r.choice([0.1, 1.0, 5.0])
    if r.random() < 0.1:
        x = x * 0
    return x


@C.family('activations', quick=400, chunk=50)
def _activations(ctx, i):
    from tinynn.graph.quantization import modules as Q
    r = ctx.rng
    kind = ['prelu', 'silu', 'glu', 'hardsigmoid', 'layernorm', 'rmsnorm'][i % 6]
    nd = r.choice([2, 3, 4])
    shape = [r.choice([1, 2, 3])] + [r.choice([2, 3, 4, 6]) for _ in range(nd - 1)]
    tol = 1e-4
    if kind == 'prelu':
        n = shape[1] if r.random() < 0.6 else 1
        ref = nn.PReLU(n)
        ref.weight.data.normal_()
        cls, desc = Q.QPReLU, f'PReLU({n})'
    elif kind == 'silu':
        ref, cls, desc = nn.SiLU(), Q.QSiLU, 'SiLU()'
    elif kind == 'glu':
        dim = r.choice([d for d in range(-nd, nd)])
        shape[dim] = 2 * r.choice([1, 2, 3])
        ref, cls, desc = nn.GLU(dim), Q.QGLU, f'GLU({dim})'
    elif kind == 'hardsigmoid':
        ref, cls, desc = nn.Hardsigmoid(), Q.QHardsigmoid, 'Hardsigmoid()'
    else:
        k = r.choice(range(1, nd))
        ns = shape[-k:]
        kw = {}
        if r.random() < 0.5:
            kw['eps'] = r.choice([1e-3, 1e-5, 0.1, 1e-6])
        if r.random() < 0.25:
            kw['elementwise_affine'] = False
        elif kind == 'layernorm' and r.random() < 0.2:
            kw['bias'] = False
        ref = (nn.LayerNorm if kind == 'layernorm' else nn.RMSNorm)(ns if k > 1 or r.random() < 0.5 else ns[0], **kw)
        for p in ref.parameters():
            p.data.normal_()
        cls, desc = (Q.QLayerNorm if kind == 'layernorm' else Q.QRMSNorm), f'{type(ref).__name__}({ns}, {kw})'
    ctx.desc = f'{desc} on {shape}'
    before = {k: v.clone() for k, v in ref.state_dict().items()}
    with ctx.sut(f'{kind}/build', 'building the replacement'):
        new = cls(ref)
    x = rnd(shape, r)
    if kind in ('layernorm', 'rmsnorm'):
        x = torch.randn(shape) * r.choice([0.5, 1.0, 3.0])  # tiny variances make the gradients ill-conditioned
        if min(shape[-k:]) * len(shape[-k:]) < 2 or x[0].numel() < 2:
            x = x + 1
        tol = 1e-3
        if float(x.reshape(*shape[:-k], -1).var(-1, unbiased=False).min()) < 0.05:
            ctx.skip('ill-conditioned')
    if kind in ('prelu', 'hardsigmoid'):
        x = x + 1e-3 * torch.sign(x)
        if kind == 'hardsigmoid':
            x[(x.abs() - 3).abs() < 1e-3] = 0.5
        if kind == 'prelu':
            x[x == 0] = 0.25
    mode = r.random() < 0.5
    ref.train(mode)
    new.train(mode)
    pairs = []
    for n, p in ref.named_parameters():
        q = dict(new.named_parameters()).get(n)
        if q is None or not torch.equal(p, q):
            ctx.violation(f'{kind}/parameter', f'parameter {n} is not carried over')
        else:
            pairs.append((p, q))
    if compare(ctx, kind, ref, new, [x], pairs=pairs, tol=tol):
        for k_, v in ref.state_dict().items():
            if not torch.equal(v, before[k_]):
                ctx.violation(f'{kind}/original', f'{k_} of the original module changed')
        ctx.ok(ctx.desc + str(mode), ctx.desc)


def qconfig(r, ch_axis=0):
    import torch.ao.quantization as tq
    if r.random() < 0.5:
        w = tq.FakeQuantize.with_args(observer=tq.MinMaxObserver, quant_min=-127, quant_max=127, dtype=torch.qint8, qscheme=torch.per_tensor_symmetric)
    else:
        w = tq.FakeQuantize.with_args(observer=tq.PerChannelMinMaxObserver, quant_min=-127, quant_max=127, dtype=torch.qint8, qscheme=torch.per_channel_symmetric, ch_axis=ch_axis)
    return tq.QConfig(activation=tq.FakeQuantize.with_args(observer=tq.MinMaxObserver), weight=w)


def off(m):
    import torch.ao.quantization as tq
    m.apply(tq.disable_fake_quant)


def conv_args(r, nd, transpose):
    groups = r.choice([1, 1, 1, 2, 3])
    cin, cout = groups * r.choice([1, 2, 3]), groups * r.choice([1, 2, 4])

    def dim(vals, lo=0):
        v = r.choice(vals)
        return v if r.random() < 0.6 or nd == 1 else tuple(r.choice(vals) for _ in range(nd))
    kw = dict(kernel_size=dim([1, 2, 3]), stride=dim([1, 2, 3]), padding=dim([0, 1]), groups=groups, bias=r.random() < 0.6)
    if not transpose and r.random() < 0.2:
        kw['padding_mode'] = r.choice(['reflect', 'circular', 'replicate'])
    if not transpose and r.random() < 0.15 and kw['stride'] == 1:
        kw['padding'] = r.choice(['same', 'valid'])
    if r.random() < 0.3:
        kw['dilation'] = dim([1, 2])
    if transpose:
        st = kw['stride'] if isinstance(kw['stride'], tuple) else (kw['stride'],) * nd
        dl = kw.get('dilation', 1)
        dl = dl if isinstance(dl, tuple) else (dl,) * nd
        if r.random() < 0.4:
            kw['output_padding'] = tuple(r.randrange(0, max(s, d)) for s, d in zip(st, dl))
    return cin, cout, kw


@C.family('convolutions', quick=250, chunk=50)
def _convolutions(ctx, i):
    from tinynn.graph.quantization import qat_modules as Q
    r = ctx.rng
    name = ['Conv1d', 'ConvTranspose1d', 'ConvTranspose2d'][i % 3]
    nd = int(name[-2])
    tr = 'Transpose' in name
    cin, cout, kw = conv_args(r, nd, tr)
    ref = getattr(nn, name)(cin, cout, **kw)
    x = rnd([r.choice([1, 2])] + [cin] + [r.choice([6, 7, 9])] * nd, r)
    ctx.desc = f'{name}({cin}, {cout}, {kw}) on {tuple(x.shape)}'
    ref.qconfig = qconfig(r, 1 if tr else 0)
    src = copy.deepcopy(ref)
    mode = r.random() < 0.5
    with ctx.sut(f'{name}/build', 'building the replacement'):
        new = getattr(Q, name).from_float(src)
    off(new)
    if r.random() < 0.5:
        import torch.ao.quantization as tq
        new.apply(tq.disable_observer)
    ref.train(mode)
    new.train(mode)
    pairs = [(ref.weight, new.weight)] + ([(ref.bias, new.bias)] if ref.bias is not None else [])
    if (ref.bias is None) != (new.bias is None):
        ctx.violation(f'{name}/bias', 'bias lost or invented')
        return
    ok = compare(ctx, name, ref, new, [x], pairs=pairs)
    opt = torch.optim.SGD(new.parameters(), 0.1)
    new(x).sum().backward()
    opt.step()
    if src.weight is not new.weight and not torch.equal(src.weight, ref.weight):
        ctx.violation(f'{name}/source', 'training changes the source module')
    if name == 'Conv1d':
        with ctx.sut(f'{name}/to_float', 'converting back'):
            back = new.to_float()
        if type(back) is not nn.Conv1d or not torch.equal(back.weight, new.weight) or (back.bias is None) != (ref.bias is None):
            ctx.violation(f'{name}/to_float', 'the module converted back has other parameters')
        elif not close(back(x), new(x)):
            ctx.violation(f'{name}/to_float-value', 'the module converted back computes something else')
    if ok:
        ctx.ok(ctx.desc, ctx.desc)


@C.family('convtranspose-bn', quick=150, chunk=30)
def _convtranspose_bn(ctx, i):
    from tinynn.graph.quantization import fused_modules as fm
    from tinynn.graph.quantization import qat_modules as Q
    r = ctx.rng
    cin, cout, kw = conv_args(r, 2, True)
    conv = nn.ConvTranspose2d(cin, cout, **kw)
    bkw = dict(eps=r.choice([1e-5, 1e-3, 0.1]), momentum=r.choice([0.1, 0.3, 0.9]))
    bn = nn.BatchNorm2d(cout, **bkw)
    bn.weight.data.normal_().add_(r.choice([0, 2]))
    bn.weight.data[bn.weight.data.abs() < 0.05] = 0.3
    bn.bias.data.normal_()
    bn.running_mean.normal_()
    bn.running_var.uniform_(0.3, 2)
    ctx.desc = f'ConvTranspose2d({cin}, {cout}, {kw}) + BatchNorm2d({bkw})'
    key = 'grouped' if kw['groups'] > 1 else 'bn'
    ref = nn.Sequential(copy.deepcopy(conv), copy.deepcopy(bn)).train()
    fused = fm.ConvTransposeBn2d(conv.train(), bn.train())
    fused.qconfig = qconfig(r, 1)
    with ctx.sut(f'{key}/build', 'building the replacement'):
        new = Q.ConvTransposeBn2d.from_float(fused)
    off(new)
    steps = r.choice([1, 2, 4])
    lr = 0.01
    oa, ob = torch.optim.SGD(ref.parameters(), lr), torch.optim.SGD(new.parameters(), lr)
    log = []
    for s in range(steps):
        u = r.random()
        if u < 0.2:
            ref.eval(), new.eval()
            log.append('eval')
        elif u < 0.4:
            # frozen statistics: training goes on with the running statistics
            ref.train(), new.train()
            ref[1].eval()
            new.freeze_bn_stats()
            log.append('freeze')
            new.train()
            if new.bn.training:
                ctx.violation(f'{key}/freeze', 'train() unfreezes frozen statistics')
        else:
            ref.train(), new.train()
            new.update_bn_stats()
            ref[1].train()
            log.append('train')
        x = torch.randn(3, cin, 4, 5)
        pairs = [(ref[0].weight, new.weight), (ref[1].weight, new.bn.weight), (ref[1].bias, new.bn.bias)]
        # the gradient of a bias in front of a batch norm in training mode is zero up to rounding
        if ref[0].bias is not None and not ref[1].training:
            pairs.append((ref[0].bias, new.bias))
        if not compare(ctx, f'{key}/{log[-1]}', ref, new, [x], pairs=pairs, tol=2e-3):
            return
        for n in ('running_mean', 'running_var', 'num_batches_tracked'):
            if not close(getattr(new.bn, n).float(), getattr(ref[1], n).float(), 1e-3):
                ctx.violation(f'{key}/statistics', f'{n} differs after {log}')
                return
        oa.zero_grad(), ob.zero_grad()
        (ref(x) ** 2).mean().backward()
        (new(x) ** 2).mean().backward()
        oa.step(), ob.step()
    ctx.desc += str(log)
    ref.eval(), new.eval()
    ref[1].eval()
    x = torch.randn(2, cin, 4, 5)
    y = ref(x)
    with ctx.sut(f'{key}/eval', 'the replacement in evaluation mode'):
        if not close(new(x), y, 3e-3):
            ctx.violation(f'{key}/eval-value', 'evaluation mode differs after training')
            return
    with ctx.sut(f'{key}/to_float', 'converting back'):
        back = new.to_float()
        if not close(back.eval()(x), y, 3e-3):
            ctx.violation(f'{key}/to_float-value', 'the module converted back computes something else')
    with ctx.sut(f'{key}/transform', 'folding the batch norm'):
        new.activation_post_process = nn.Identity()
        folded = Q.ConvTransposeBn2d.transform(new)
        off(folded)
        if not close(folded.eval()(x), y, 3e-3):
            ctx.violation(f'{key}/transform-value', 'the folded module computes something else')
    sd = new.state_dict()
    if r.random() < 0.5:  # state dictionaries, also those of the old format
        other = Q.ConvTransposeBn2d.from_float(copy.deepcopy(fused_like(conv, bn, fused.qconfig)))
        if r.random() < 0.5:
            names = {'bn.weight': 'gamma', 'bn.bias': 'beta', 'bn.running_mean': 'running_mean', 'bn.running_var': 'running_var', 'bn.num_batches_tracked': 'num_batches_tracked'}
            meta = sd._metadata
            sd = type(sd)((names.get(k, k), v) for k, v in sd.items())
            sd._metadata = meta
            sd._metadata[''] = {'version': 1}
        with ctx.sut(f'{key}/load', 'loading a state dictionary'):
            for q in other.buffers():
                pass
            other.load_state_dict(sd, strict=True) if not any('scale' in k and sd[k].numel() > 1 for k in sd) else other.load_state_dict(sd, strict=True)
        off(other)
        if not close(other.eval()(x), y, 3e-3):
            ctx.violation(f'{key}/load-value', 'the loaded module computes something else')
    ctx.ok(ctx.desc, ctx.desc)


def fused_like(conv, bn, qc):
    from tinynn.graph.quantization import fused_modules as fm
    f = fm.ConvTransposeBn2d(copy.deepcopy(conv).train(), copy.deepcopy(bn).train())
    f.qconfig = qc
    return f


@C.family('recurrent', quick=150, chunk=30)
def _recurrent(ctx, i):
    r = ctx.rng
    import torch.ao.quantization as tq
    from tinynn.graph.quantization.quantizable import gru as tg
    from tinynn.graph.quantization.quantizable import lstm as tl
    kind = ['GRU', 'GRU', 'LSTM'][i % 3]
    kw = dict(num_layers=r.choice([1, 1, 2, 3]), bias=r.random() < 0.7, batch_first=r.random() < 0.5, bidirectional=r.random() < 0.4)
    inp, h, b, t = r.choice([1, 3, 4]), r.choice([1, 2, 5]), r.choice([1, 2, 3]), r.choice([1, 2, 5])
    ref = getattr(nn, kind)(inp, h, **kw)
    for p in ref.parameters():
        p.data.normal_(0, 0.6)
    x = torch.randn((b, t, inp) if kw['batch_first'] else (t, b, inp)) * r.choice([1, 3])
    d = kw['num_layers'] * (1 + kw['bidirectional'])
    state = None
    if r.random() < 0.5:
        state = torch.randn(d, b, h)
        if kind == 'LSTM':
            state = (state, torch.randn(d, b, h))
    qat = r.random() < 0.5
    ctx.desc = f'{kind}({inp}, {h}, {kw}) on {tuple(x.shape)}, state {"given" if state is not None else "zero"}, {"qat" if qat else "ptq"}'
    key = kind.lower() + ('-bi' if kw['bidirectional'] else '')
    src = copy.deepcopy(ref)
    src.qconfig = tq.QConfig(activation=tq.FakeQuantize.with_args(observer=tq.MinMaxObserver) if qat else tq.MinMaxObserver, weight=qconfig(r).weight if qat else tq.default_weight_observer)
    with ctx.sut(f'{key}/build', 'building the replacement'):
        if kind == 'GRU':
            new = (tg.from_float.__get__(None, tg.GRU) if qat else tg.GRU.from_float)(src)
        else:
            new = (tl.from_float.__get__(None, torch.ao.nn.quantizable.LSTM) if qat else torch.ao.nn.quantizable.LSTM.from_float)(src)
    off(new)
    new.eval()
    ref.eval()
    with torch.no_grad():
        want = ref(x.clone()) if state is None else ref(x.clone(), copy.deepcopy(state))
        given = copy.deepcopy(state)
        with ctx.sut(f'{key}/forward', 'the replacement'):
            got = new(x.clone()) if state is None else new(x.clone(), given)
    flat = lambda y: [y[0]] + ([y[1]] if isinstance(y[1], torch.Tensor) else list(y[1]))  # noqa: E731
    for n, p, q in zip(('sequence', 'state', 'cell'), flat(want), flat(got)):
        if not close(q, p, 1e-4):
            ctx.violation(f'{key}/{n}', f'{n} differs: {tuple(p.shape)} {tuple(q.shape)} ' + (f'by {float((p - q).abs().max())}' if p.shape == q.shape else ''))
            return
    if state is not None and not all(torch.equal(p, q) and p.shape == q.shape for p, q in zip(flat((x, state))[1:], flat((x, given))[1:])):
        ctx.violation(f'{key}/given-state', 'the state given by the caller is modified')
    ctx.ok(ctx.desc, ctx.desc)


if __name__ == '__main__':
    sys.exit(C.main())
