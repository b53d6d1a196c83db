"""Helpers around the quantizers."""
import contextlib
import copy
import io
import os

import torch
import torch.nn as nn

from .tracing import modes  # noqa: F401


def flat(x):
    if isinstance(x, torch.Tensor):
        return [x]
    if isinstance(x, dict):
        x = list(x.values())
    return [t for y in x for t in flat(y)] if isinstance(x, (list, tuple)) else []


def run(m, xs):
    return flat(m(*[t.clone() for t in xs]))


def config(r, kind, **fixed):
    c = {'ignore_layerwise_config': True}
    backend = r.choice(['qnnpack'] * 8 + ['fbgemm'])
    if backend != 'qnnpack':
        c['backend'] = backend
    if backend == 'fbgemm':
        c.update(asymmetric=True, per_tensor=False)
    elif backend == 'tensorrt':
        c.update(asymmetric=False, per_tensor=False)
    else:
        c.update(asymmetric=r.random() < 0.6, per_tensor=r.random() < 0.6)
    if r.random() < 0.2:
        c['rounding_mode'] = 'tflite'
    if r.random() < 0.1 and kind == 'qat':
        c['rewrite_graph'] = False
    if r.random() < 0.1:
        c['legacy_fq'] = False
    if r.random() < 0.1:
        c['dynamic_lstm_quant'] = True
    if r.random() < 0.1:
        c['set_quantizable_op_stats'] = True
    if r.random() < 0.1:
        c['inplace'] = True
    if kind == 'ptq' and r.random() < 0.2:
        c['algorithm'] = 'kl'
    if r.random() < 0.1:
        c['fuse_only'] = True
    c.update(fixed)
    return c


def prepare(kind, m, x, config, want_quantizer=False):
    from tinynn.graph.quantization import quantizer as Q
    cls = {'qat': Q.QATQuantizer, 'ptq': Q.PostQuantizer, 'dynamic': Q.DynamicQuantizer, 'bf16': Q.BF16Quantizer}[kind]
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
            q = cls(m, tuple(t.clone() for t in x), work_dir='work', config=dict(config))
            p = q.quantize()
    except SystemExit:
        raise RuntimeError('exit: ' + ' '.join(err.getvalue().strip().split('\n')[-2:])[-300:]) from None
    return (p, q) if want_quantizer else p


def plain(m, x):
    """Does tracing alone reproduce the model?"""
    from tinynn.graph.tracer import trace, import_patcher
    from tinynn.util.util import import_from_path
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
            m = copy.deepcopy(m)
            g = trace(m, tuple(t.clone() for t in x))
            g.generate_code('plain.py', 'plain.pth', 'Plain', check=False)
            p = import_from_path('plain_ns', os.path.abspath('plain.py'), 'Plain')()
            p.load_state_dict(torch.load('plain.pth'))
            p.eval(), m.eval()
            with torch.no_grad():
                return differ(run(m, x), run(p, x), 1e-4) is None
    except (Exception, SystemExit):
        return False


def explain(ctx, m, x, e):
    """Skips models that the tracer alone does not reproduce (the subject of other properties)."""
    if not plain(m, x):
        ctx.skip('untraceable')


def quantizers(m):
    return [q for q in m.modules() if isinstance(q, (torch.quantization.FakeQuantizeBase, torch.quantization.ObserverBase))]


def count(m):
    return len(quantizers(m))


def disable(m):
    m.apply(torch.quantization.disable_fake_quant)
    m.apply(torch.quantization.disable_observer)


def observe(m):
    m.apply(torch.quantization.enable_observer)
    m.apply(torch.quantization.disable_fake_quant)


def differ(want, got, tol=5e-4):
    if len(want) != len(got):
        return f'{len(got)} outputs instead of {len(want)}'
    for k, (a, b) in enumerate(zip(want, got)):
        if a.shape != b.shape:
            return f'output {k} has shape {tuple(b.shape)} instead of {tuple(a.shape)}'
        if a.dtype != b.dtype:
            return f'output {k} has type {b.dtype} instead of {a.dtype}'
        if a.numel() == 0:
            continue
        if not a.is_floating_point() or tol == 0:
            if not torch.equal(a, b) and not torch.equal(torch.nan_to_num(a), torch.nan_to_num(b)):
                return f'output {k} differs in {int((a != b).sum())} of {a.numel()} elements'
            continue
        fin = torch.isfinite(a)
        if not torch.equal(fin, torch.isfinite(b)):
            return f'output {k} is not finite in the same places'
        if not bool(fin.any()):
            continue
        s = max(float(a[fin].abs().max()), 1e-2)
        e = float((a[fin] - b[fin]).abs().max())
        if e > tol * s:
            return f'output {k} differs by {e:.3g} of {s:.3g}'
    return None


def stable(m, x, tol=1e-4):
    """False if a tiny change of weights or inputs moves an output noticeably (jumps, divisions by almost zero)."""
    with torch.no_grad():
        m = copy.deepcopy(m)
        y = run(copy.deepcopy(m), x)
        for p in m.parameters():
            if p.is_floating_point():
                p.mul_(1 + 3e-6 * torch.randn_like(p))
        z = run(m, [t * (1 + 3e-6 * torch.randn_like(t)) if t.is_floating_point() else t for t in x])
    return differ(y, z, tol) is None and all(bool(torch.isfinite(t).all()) for t in y)
