"""C20: fake quantizers and observers."""
import math
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402

import numpy as np  # noqa: E402
import torch  # noqa: E402
import torch.nn as nn  # noqa: E402

warnings.filterwarnings('ignore')
C = core.Check(
    'C20',
    rule='hostile tensors and enable/disable histories through every observer and fake quantizer (stand-alone and as the quantizers configure them) against an independent '
         'model of observation, parameter derivation and grid rounding; distinct by quantizer, scheme, data kind and history',
    assumptions=['finite data below 1e30 (the ranges of the observers of PyTorch overflow beyond)'],
)


def tensor(r, shape, kind=None):
    kind = kind or r.choice(['normal', 'normal', 'positive', 'negative', 'constant', 'zeros', 'tiny', 'huge', 'outlier', 'halves', 'uniform', 'sparse', 'offset', 'single'])
    x = torch.randn(shape)
    if kind == 'positive':
        x = x.abs() + r.choice([0, 0.5, 5])
    elif kind == 'negative':
        x = -x.abs() - r.choice([0, 0.5, 5])
    elif kind == 'constant':
        x = torch.full(shape, r.choice([1.0, -3.0, 0.1, 1e-3, 100.0]))
    elif kind == 'zeros':
        x = torch.zeros(shape)
    elif kind == 'tiny':
        x = x * r.choice([1e-8, 1e-12, 1e-30, 1e-42])
    elif kind == 'huge':
        x = x * r.choice([1e6, 1e12, 1e25])
    elif kind == 'outlier':
        x.view(-1)[0] = r.choice([-1, 1]) * r.choice([30.0, 1e3])
    elif kind == 'halves':
        x = (x * 20).round() / 2
    elif kind == 'uniform':
        x = torch.rand(shape) * r.choice([1, 2, 6])
    elif kind == 'sparse':
        x = torch.relu(x - r.choice([0, 1, 2]))
    elif kind == 'offset':
        x = x + r.choice([-20, 20, 1e3])
    elif kind == 'single':
        x = torch.zeros(shape)
        x.view(-1)[-1] = r.choice([1.0, -2.5, 1e4])
    return x, kind


def shape_of(r):
    return [r.choice([1, 2, 3, 8]) for _ in range(r.choice([1, 2, 3, 4]))]


EPS = float(torch.finfo(torch.float32).eps)


def model_qparams(lo, hi, qmin, qmax, symmetric, unsigned, eps=EPS):
    """Scale and zero point PyTorch's documentation promises for the range (lo, hi); float64."""
    lo, hi = np.minimum(np.float64(lo), 0), np.maximum(np.float64(hi), 0)
    if symmetric:
        m = np.maximum(-lo, hi)
        s = np.maximum(m / ((qmax - qmin) / 2), eps)
        z = np.zeros_like(s) + (127.5 if unsigned else 0)
    else:
        s = np.maximum((hi - lo) / (qmax - qmin), eps)
        z = np.clip(qmin - np.rint(lo / s), qmin, qmax)
    return s, z


def check_params(ctx, key, scale, zp, qmin, qmax):
    scale, zp = scale.double().reshape(-1), zp.double().reshape(-1)
    if not bool(torch.isfinite(scale).all()) or not bool((scale > 0).all()):
        ctx.violation(f'{key}/scale', f'scale is not positive and finite: {scale.tolist()[:4]}')
        return False
    if not bool(((zp >= qmin) & (zp <= qmax) & (zp == zp.round())).all()):
        ctx.violation(f'{key}/zero-point', f'zero point {zp.tolist()[:4]} outside of [{qmin}, {qmax}]')
        return False
    return True


def axis_view(x, ch):
    return x.transpose(0, ch).reshape(x.shape[ch], -1)


def cmp_params(ctx, key, scale, zp, want, tol=1e-5, exact=True):
    s, z = want
    sv, zv = scale.double().reshape(-1).numpy(), zp.double().reshape(-1).numpy()
    s, z = np.atleast_1d(s), np.atleast_1d(z)
    if sv.shape != s.shape or not np.allclose(sv, s, rtol=tol, atol=0):
        ctx.violation(f'{key}/scale-value', f'scale {sv[:4]} instead of {s[:4]}')
        return False
    if not np.all(np.abs(zv - z) <= (0 if np.all(z == 0) and exact else 1)):
        ctx.violation(f'{key}/zero-point-value', f'zero point {zv[:4]} instead of {z[:4]}')
        return False
    return True


@C.family('observers', quick=260, chunk=65)
def _observers(ctx, i):
    from tinynn.graph.quantization import observer as O
    r = ctx.rng
    cls = ['MinMaxObserver', 'PerChannelMinMaxObserver', 'MovingAverageMinMaxObserver', 'MovingAveragePerChannelMinMaxObserver'][i % 4]
    per_ch = 'PerChannel' in cls
    symmetric = r.random() < 0.7
    kw = {'dtype': torch.qint8, 'qscheme': (torch.per_channel_symmetric if per_ch else torch.per_tensor_symmetric) if symmetric else (torch.per_channel_affine if per_ch else torch.per_tensor_affine)}
    shape = shape_of(r)
    if per_ch and len(shape) == 1:
        shape.append(4)
    ch = r.randrange(len(shape)) if per_ch else None
    if per_ch:
        kw['ch_axis'] = ch
    avg = r.choice([0.01, 0.1, 0.5, 1.0]) if 'Moving' in cls else None
    if avg is not None:
        kw['averaging_constant'] = avg
    obs = getattr(O, cls)(**kw)
    lo = hi = None
    big = 0.0
    kinds = []
    for step in range(r.choice([1, 1, 2, 3, 5])):
        x, kind = tensor(r, shape)
        if avg is not None and step and kind == 'constant':
            x, kind = tensor(r, shape, 'normal')  # averages of constants can cross by rounding, which PyTorch refuses
        kinds.append(kind)
        keep = x.clone()
        with ctx.sut(f'{cls}/forward', 'observing'):
            y = obs(x)
        if not torch.equal(x, keep) or not torch.equal(y, keep):
            ctx.violation(f'{cls}/changes-data', 'observing changes the data')
        v = axis_view(x, ch) if per_ch else x.reshape(1, -1)
        a, b = v.min(1).values.double().numpy(), v.max(1).values.double().numpy()
        if lo is None:
            lo, hi = a, b
        elif avg is not None:
            lo, hi = lo + avg * (a - lo), hi + avg * (b - hi)
        else:
            lo, hi = np.minimum(lo, a), np.maximum(hi, b)
        ctx.count('batches')
        tol, big = 1e-5 if avg is not None else 0, max(big, float(x.abs().max()))
        for nm, got, want in (('min', obs.min_val, lo), ('max', obs.max_val, hi)):
            g = got.double().reshape(-1).numpy()
            if g.shape != want.shape or not np.allclose(g, want, rtol=tol, atol=tol * big):
                ctx.violation(f'{cls}/{nm}', f'{nm} {g[:4]} instead of {want[:4]} after {kinds}')
                return
    ctx.desc = f'{cls} {kw["qscheme"]} axis {ch} on {shape} {kinds}'
    with ctx.sut(f'{cls}/qparams', 'deriving parameters'):
        s, z = obs.calculate_qparams()
    qmin, qmax = -127, 127
    if check_params(ctx, cls, s, z, qmin, qmax) and cmp_params(ctx, cls, s, z, model_qparams(obs.min_val.reshape(-1).double().numpy(), obs.max_val.reshape(-1).double().numpy(), qmin, qmax, symmetric, False)):
        sv, zv = s.double().numpy().reshape(-1), z.double().numpy().reshape(-1)
        slack = sv * (0.5 + 1e-4)
        if np.any(sv * (qmin - zv) > np.minimum(lo, 0) + slack + 1e-4 * np.abs(lo) + 1e-5 * big * (avg is not None)) or np.any(sv * (qmax - zv) < np.maximum(hi, 0) - slack - 1e-4 * np.abs(hi) - 1e-5 * big * (avg is not None)):
            ctx.violation(f'{cls}/cover', f'the range {lo[:3]}..{hi[:3]} is not covered by scale {sv[:3]}, zero point {zv[:3]}')
        ctx.ok(ctx.desc, ctx.desc)


@C.family('histogram-kl', quick=64, chunk=8)
def _kl(ctx, i):
    from tinynn.graph.quantization.observer import HistogramObserverKL
    r = ctx.rng
    symmetric = r.random() < 0.5
    kw = {'qscheme': torch.per_tensor_symmetric if symmetric else torch.per_tensor_affine, 'reduce_range': not symmetric and r.random() < 0.3}
    n = r.choice([[4, 8], [64, 32], [1000], [5], [2, 3, 8, 8]])
    xs, kinds = [], []
    for step in range(r.choice([1, 1, 2, 3])):
        x, kind = tensor(r, n)
        if kind in ('tiny', 'huge'):
            x = torch.randn(n) * r.choice([1e-6, 1e6])
        xs.append(x)
        kinds.append(kind)
    lo, hi = float(min(x.min() for x in xs)), float(max(x.max() for x in xs))
    ctx.desc = f'HistogramObserverKL {kw} on {n} {kinds}'
    obs = HistogramObserverKL(**kw)
    qmin, qmax = (0, 127) if kw['reduce_range'] else (0, 255)
    with ctx.sut('kl/run', 'observing and searching thresholds'):
        for x in xs:
            keep = x.clone()
            y = obs(x)
            if not torch.equal(y, keep) or not torch.equal(x, keep):
                ctx.violation('kl/changes-data', 'observing changes the data')
        new_min, new_max = obs._non_linear_param_search()
        s, z = obs.calculate_qparams()
        s2, z2 = obs.calculate_qparams()
    if not torch.equal(s, s2) or not torch.equal(z, z2):
        ctx.violation('kl/repeat', 'deriving the parameters twice gives different values')
    if not check_params(ctx, 'kl', s, z, qmin, qmax):
        return
    span = hi - lo
    a, b = float(new_min), float(new_max)
    tol = 1e-4 * max(span, abs(lo), abs(hi)) + 1e-30
    if not (math.isfinite(a) and math.isfinite(b)):
        ctx.violation('kl/finite', f'the thresholds are {a} and {b}')
        return
    slack = 0.02 * span if len(xs) > 1 else 0  # combined histograms are wider than the data
    if a < lo - tol - slack or b > hi + tol + slack or a > b:
        ctx.violation('kl/inside', f'thresholds {a}..{b} for data in {lo}..{hi}')
        return
    x = torch.cat([q.reshape(-1) for q in xs])
    if x.numel() >= 1000 and len(set(kinds)) == 1:
        inside = float(((x >= a - tol) & (x <= b + tol)).float().mean())
        ctx.count('coverage_checked')
        if kinds[0] == 'uniform' and inside < 0.9:
            ctx.violation('kl/coverage', f'thresholds {a}..{b} keep only {inside:.2%} of uniform data in {lo}..{hi}')
        if kinds[0] in ('normal', 'offset') and inside < 0.7:
            ctx.violation('kl/coverage', f'thresholds {a}..{b} keep only {inside:.2%} of normal data in {lo}..{hi}')
    # scaling all data by a power of two scales the parameters exactly
    if span > 1e-3 and hi < 1e4 and lo > -1e4:
        k = r.choice([0.25, 4.0, 64.0])
        other = HistogramObserverKL(**kw)
        for q in xs:
            other(q * k)
        c, d = other._non_linear_param_search()
        if len(xs) == 1 and (abs(float(c) - a * k) > 0.02 * span * k or abs(float(d) - b * k) > 0.02 * span * k):
            ctx.violation('kl/scaling', f'thresholds {a}..{b}, but {float(c)}..{float(d)} for the data times {k}')
    ctx.ok(ctx.desc, ctx.desc)


def divergence(dist, i):
    """Divergence of the first i bins merged into 128 and expanded again, computed bin by bin."""
    p = dist[:i].copy()
    p[-1] += dist[i:].sum()
    w = i / 128
    e = np.zeros(i)
    d = dist[:i]
    k = np.arange(i)
    for j in range(128):
        a, b = int(np.floor(j * w)), min(i, int(np.ceil((j + 1) * w)))
        ov = np.minimum(k[a:b] + 1, (j + 1) * w) - np.maximum(k[a:b], j * w)
        n = (ov * (d[a:b] != 0)).sum()
        if n > 0:
            e[a:b] += np.where(d[a:b] != 0, ov, 0) * (ov * d[a:b]).sum() / n
    m = p > 0
    if (e[m] <= 0).any():
        return math.inf
    return float((p[m] * np.log(p[m] / e[m])).sum())


@C.family('kl-threshold', quick=40, chunk=10)
def _klt(ctx, i):
    from tinynn.graph.quantization.observer import HistogramObserverKL
    r = ctx.rng
    obs = HistogramObserverKL()
    m = r.choice([128, 300, 1024, 2048, 2048])
    x, kind = tensor(r, [r.choice([50, 500, 5000, 50000])], r.choice(['normal', 'positive', 'uniform', 'outlier', 'sparse', 'halves', 'single', 'offset']))
    d = np.histogram(x.numpy(), bins=m)[0].astype(np.float32)
    if r.random() < 0.5:
        d = d[::-1].copy()
    d = d / d.sum()
    ctx.desc = f'threshold of {kind} data, {x.numel()} values in {m} bins'
    with ctx.sut('kl-threshold/run', 'searching'):
        t = int(obs._compute_threshold(d.copy(), m))
    if not 128 <= t <= m:
        ctx.violation('kl-threshold/range', f'threshold {t} of {m}')
        return
    d = d.astype(np.float64)
    cand = {128, m, *(r.randint(128, m) for _ in range(25))}
    got = divergence(d, t)
    best, at = min((divergence(d, c), c) for c in cand)
    ctx.count('divergences', len(cand))
    if got > best * 1.2 + 2e-3:
        ctx.violation('kl-threshold/minimum', f'the divergence at the threshold {t} is {got}, but {best} at {at}')
        return
    ctx.ok(f'{ctx.desc}{i}', ctx.desc)


class Fork(nn.Module):
    def __init__(self):
        super().__init__()
        self.conv = nn.Conv2d(3, 4, 3)
        self.fc = nn.Linear(4, 5)

    def forward(self, x):
        return self.fc(torch.relu(self.conv(x)).mean([2, 3]))


def configured(ctx, r):
    """The fake quantizers or observers that the quantizers configure: [(name, factory)]."""
    from tinynn.graph.quantization import quantizer as Q
    from tinynn.graph.tracer import trace
    cls = r.choice(['QATQuantizer', 'QATQuantizer', 'PostQuantizer'])
    backend = r.choice(['qnnpack', 'qnnpack', 'fbgemm', 'onnx', 'tensorrt'])
    cfg = {'backend': backend, 'asymmetric': r.random() < 0.5, 'per_tensor': backend != 'fbgemm' and r.random() < 0.5, 'legacy_fq': r.random() < 0.5}
    if backend == 'fbgemm':
        cfg['asymmetric'] = True
    if cls == 'QATQuantizer':
        cfg['rounding_mode'] = r.choice(['pytorch', 'tflite'])
    else:
        cfg['algorithm'] = r.choice(['l2', 'l2', 'kl'])
    m, d = Fork(), torch.randn(1, 3, 6, 6)
    engine = torch.backends.quantized.engine
    try:
        with ctx.sut(f'configured/{backend}', 'configuring a quantizer'):
            q = getattr(Q, cls)(m, d, work_dir='out', config=dict(cfg))
            g = trace(m, d)
            q.prepare_qconfig(g, backend if cls == 'QATQuantizer' or backend in ('qnnpack', 'fbgemm') else 'qnnpack')
    finally:
        torch.backends.quantized.engine = engine
    ctx.desc = f'{cls} {cfg}'
    out = [('activation', m.qconfig.activation), ('weight', m.qconfig.weight)]
    for n in ('conv', 'fc'):
        qc = getattr(getattr(m, n), 'qconfig', None)
        if qc is not None:
            out.append((n + '-weight', qc.weight))
    return cls, cfg, out


def grid(x, s, z, qmin, qmax, ch):
    """Distance of x/s from the nearest code, in steps and clamped; float64."""
    x = x.double().numpy()
    s, z = s.double().numpy(), z.double().numpy()
    if ch is not None:
        sh = [1] * x.ndim
        sh[ch] = -1
        s, z = s.reshape(sh), z.reshape(sh)
    return x / s + z, s, z


def judge_fq(ctx, key, x, y, scale, zp, qmin, qmax, ch, away=False):
    """y must be x fake-quantized with the given parameters."""
    if x.shape != y.shape or y.dtype != x.dtype:
        ctx.violation(f'{key}/shape', f'{tuple(y.shape)} {y.dtype} for {tuple(x.shape)}')
        return False
    u, s, z = grid(x, scale, zp, qmin, qmax, ch)
    v, _, _ = grid(y, scale, zp, qmin, qmax, ch)
    code = np.rint(v)
    if not np.all(np.abs(v - code) <= 1e-3):
        ctx.violation(f'{key}/grid', f'values are off the grid by {float(np.abs(v - code).max())} steps')
        return False
    if np.any(code < qmin) or np.any(code > qmax):
        ctx.violation(f'{key}/range', f'codes {code.min()}..{code.max()} outside of [{qmin}, {qmax}]')
        return False
    want = np.clip(u, qmin, qmax)
    bad = np.abs(code - want) > 0.5 + 1e-5 * np.maximum(1, np.abs(u - z)) + 2e-6
    if bad.any():
        k = np.argmax(np.abs(code - want))
        ctx.violation(f'{key}/error', f'the error is {float(np.abs(code - want).max())} steps (input {float(x.reshape(-1)[k])}, output {float(y.reshape(-1)[k])})')
        return False
    if away:
        t = u - z
        mid = (np.abs(np.abs(t) % 1 - 0.5) < 1e-7) & (np.abs(t) <= 7) & (u > qmin) & (u < qmax)
        if mid.any():
            ctx.count('midpoints', int(mid.sum()))
            if np.any(np.abs(code - z)[mid] < np.abs(t)[mid]):
                ctx.violation(f'{key}/midpoint', 'a value half-way between two codes is not rounded away from zero')
                return False
    f = (lambda w: w.reshape(1, -1)) if ch is None else (lambda w: np.moveaxis(w, ch, 0).reshape(w.shape[ch], -1))
    for a, b in zip(f(x.double().numpy()), f(code)):
        o = np.argsort(a, kind='stable')
        if np.any(np.diff(b[o]) < 0):
            ctx.violation(f'{key}/monotone', 'not monotone')
            return False
    return True


def stats_of(fq):
    o = fq.activation_post_process
    return [t.clone() for t in (o.min_val, o.max_val, fq.scale, fq.zero_point)]


@C.family('configured', quick=160, chunk=28)
def _configured(ctx, i):
    import torch.ao.quantization as tq
    r = ctx.rng
    cls, cfg, facs = configured(ctx, r)
    name, fac = r.choice(facs)
    key = f'configured/{cls}/{cfg["backend"]}/{name}'
    with ctx.sut(key + '/build', 'building'):
        fq = fac()
    desc0 = ctx.desc + ' ' + name
    base = shape_of(r) if name in ('activation',) else ([5, 4] if name == 'fc-weight' else r.choice([[4, 3, 3, 3], [5, 4], [4, 1, 3, 3], [6, 2, 1, 1], [3, 4, 5]]))
    if not isinstance(fq, tq.FakeQuantizeBase):  # observers (post-training quantization)
        xs = [tensor(r, base) for _ in range(r.choice([1, 2, 3]))]
        with ctx.sut(key + '/observe', 'observing'):
            for x, _ in xs:
                fq(x)
            s, z = fq.calculate_qparams()
        qmin, qmax = fq.quant_min, fq.quant_max
        ctx.desc = f'{desc0} {type(fq).__name__} {[k for _, k in xs]}'
        if check_params(ctx, key, s, z, qmin, qmax):
            if name != 'activation':
                if fq.qscheme in (torch.per_tensor_symmetric, torch.per_channel_symmetric) and bool((z != 0).any()):
                    ctx.violation(key + '/symmetric', f'zero points of weights are {z.tolist()[:4]}')
                v = torch.stack([q for q, _ in xs])
                v = v.transpose(0, 1).reshape(base[0], -1) if s.numel() > 1 or 'channel' in str(fq.qscheme) else v.reshape(1, -1)
                cmp_params(ctx, key, s, z, model_qparams(v.min(1).values.double().numpy(), v.max(1).values.double().numpy(), qmin, qmax, 'symmetric' in str(fq.qscheme), False))
            ctx.ok(ctx.desc, ctx.desc)
        return
    ch = getattr(fq, 'ch_axis', 0) if 'channel' in str(fq.qscheme) else None
    tfl = type(fq).__name__ == 'FakeQuantizeTFLite'
    if cls == 'QATQuantizer' and tfl != (cfg['rounding_mode'] == 'tflite'):
        ctx.violation(key + '/rounding-mode', f'{type(fq).__name__} for rounding mode {cfg["rounding_mode"]}')
    on_obs, on_fq, seen = True, True, False
    hist, kinds = [], []
    qmin, qmax = fq.quant_min, fq.quant_max
    for step in range(r.choice([2, 3, 5, 8])):
        op = r.choice(['run', 'run', 'run', 'run', 'obs-', 'obs+', 'fq-', 'fq+'])
        hist.append(op)
        if op != 'run':
            with ctx.sut(key + '/switch', op):
                {'obs-': tq.disable_observer, 'obs+': tq.enable_observer, 'fq-': tq.disable_fake_quant, 'fq+': tq.enable_fake_quant}[op](fq)
            if op[:3] == 'obs':
                on_obs = op == 'obs+'
            else:
                on_fq = op == 'fq+'
            continue
        x, kind = tensor(r, base)
        if x.abs().max() > 1e20 or (x.abs().max() < 1e-20 and x.abs().max() > 0):
            x, kind = tensor(r, base, 'normal')
        if tfl and ch is None and seen and r.random() < 0.5:  # exact midpoints
            x, kind = (torch.randint(qmin, qmax, base).float() + 0.5 - float(fq.zero_point)) * float(fq.scale), 'midpoints'
        kinds.append(kind)
        if not seen and not on_obs and (ch is not None or 'Fused' in type(fq).__name__):
            continue
        before = stats_of(fq)
        keep = x.clone()
        xr = x.clone().requires_grad_(True)
        with ctx.sut(key + '/forward', f'{hist}'):
            y = fq(xr)
        seen = seen or on_obs
        ctx.count('events')
        if not torch.equal(xr.detach(), keep):
            ctx.violation(key + '/changes-data', 'the input is modified')
            return
        if bool(fq.observer_enabled[0]) != on_obs or bool(fq.fake_quant_enabled[0]) != on_fq:
            ctx.violation(key + '/flags', f'running changes the flags after {hist}')
            return
        after = stats_of(fq)
        moved = not all(p.shape == q.shape and torch.equal(p, q) for p, q in zip(before, after))
        if not on_obs and moved:
            ctx.violation(key + '/observer-off', f'disabled observers still observe ({hist})')
            return
        if on_obs:
            a, b = ((axis_view(x, ch) if ch is not None else x.reshape(1, -1)).aminmax(dim=1))
            inf = torch.isinf(before[0]).any() or before[0].numel() == 0 or before[0].shape != after[0].shape
            c = 0.01
            for nm, new_, old, cur in (('min', after[0], before[0], a), ('max', after[1], before[1], b)):
                want = cur if inf else (old + c * (cur - old) if 'Moving' in type(fq.activation_post_process).__name__ else (torch.minimum(old, cur) if nm == 'min' else torch.maximum(old, cur)))
                tolm = 1e-5 * float(torch.maximum(old.abs().max() if not inf else cur.abs().max(), cur.abs().max()))
                if not torch.allclose(new_.reshape(-1), want.reshape(-1), rtol=1e-4, atol=tolm + 1e-37):
                    ctx.violation(key + f'/{nm}', f'{nm} is {new_.reshape(-1)[:3].tolist()} instead of {want.reshape(-1)[:3].tolist()} ({hist}, {kinds})')
                    return
            if not check_params(ctx, key, fq.scale, fq.zero_point, qmin, qmax):
                return
            sym = 'symmetric' in str(fq.qscheme)
            lo, hi = after[0].reshape(-1).double().numpy(), after[1].reshape(-1).double().numpy()
            want = model_qparams(lo, hi, qmin, qmax, sym, fq.dtype == torch.quint8)
            fused = 'Fused' in type(fq).__name__
            if fused and sym:  # PyTorch's fused kernels keep the range of one-sided data and use one more code below zero
                one = (lo >= 0) | (hi <= 0)
                aff = model_qparams(lo, hi, qmin, qmax, False, False)
                want = tuple(np.where(one, p, q) for p, q in zip(aff, want))
            small = fused and min(np.maximum(np.abs(lo), np.abs(hi))) < 0.05  # and have a smallest scale of their own
            if fused and not on_fq:
                small = True  # and derive parameters only when they are used
            if not small and not cmp_params(ctx, key, fq.scale, fq.zero_point, want, tol=1.2e-2 if fused else 1e-4, exact=not fused):
                return
        if not on_fq:
            if not torch.equal(y.detach(), keep):
                ctx.violation(key + '/fake-quant-off', f'disabled fake quantizers still change values ({hist})')
                return
        else:
            if not judge_fq(ctx, key, x, y.detach(), fq.scale, fq.zero_point, qmin, qmax, ch, away=tfl):
                return
            ctx.count('fake_quantized')
            g, = torch.autograd.grad(y.sum(), xr, allow_unused=True)
            u, _, _ = grid(x, fq.scale, fq.zero_point, qmin, qmax, ch)
            inner, outer = torch.from_numpy((u > qmin - 0.45) & (u < qmax + 0.45)), torch.from_numpy((u < qmin - 0.55) | (u > qmax + 0.55))
            if g is None or not bool((g[inner] == 1).all()) or not bool((g[outer] == 0).all()):
                ctx.violation(key + '/gradient', 'the gradient is not that of a clamped identity')
                return
    ctx.desc = f'{desc0} {type(fq).__name__} {fq.qscheme} {hist} {kinds}'
    ctx.ok(ctx.desc, ctx.desc)


@C.family('ptq-fake-quantize', quick=120, chunk=40)
def _ptqfq(ctx, i):
    import torch.ao.quantization as tq
    from tinynn.graph.quantization.fake_quantize import PTQFakeQuantize, set_ptq_fake_quantize
    r = ctx.rng
    form = r.choice(['qconfig-act', 'qconfig-weight', 'per-channel', 'affine'])
    base = shape_of(r)
    if form == 'qconfig-act':
        fq = set_ptq_fake_quantize('', nn.Identity()).activation()
    elif form == 'qconfig-weight':
        fq = set_ptq_fake_quantize('', nn.Identity()).weight()
    elif form == 'per-channel':
        base = [r.choice([2, 3, 5]), r.choice([1, 4]), 3]
        fq = PTQFakeQuantize(observer=tq.PerChannelMinMaxObserver, quant_min=-127, quant_max=127, dtype=torch.qint8, qscheme=torch.per_channel_symmetric, ch_axis=0)
    else:
        fq = PTQFakeQuantize(observer=tq.MinMaxObserver, quant_min=0, quant_max=255, dtype=torch.quint8, qscheme=torch.per_tensor_affine)
    ch = 0 if form == 'per-channel' else None
    key = f'ptq/{form}'
    tq.enable_observer(fq)
    tq.disable_fake_quant(fq)
    xs = []
    for _ in range(r.choice([1, 2, 3])):
        x, kind = tensor(r, base, r.choice(['normal', 'positive', 'uniform', 'outlier', 'halves', 'constant', 'sparse']))
        xs.append((x, kind))
        with ctx.sut(key + '/calibrate', 'calibrating'):
            y = fq(x)
        if not torch.equal(y, x):
            ctx.violation(key + '/calibration-changes', 'calibration changes values')
            return
    tq.disable_observer(fq)
    tq.enable_fake_quant(fq)
    s, z = fq.calculate_qparams()
    ctx.desc = f'{form} on {base} {[k for _, k in xs]}'
    for _ in range(2):
        x = xs[r.randrange(len(xs))][0] * r.choice([1, 1, 0.5, 2])
        with ctx.sut(key + '/validate', 'simulating'):
            y = fq(x)
        if not judge_fq(ctx, key, x, y, s, z, fq.quant_min, fq.quant_max, ch):
            return
        if not torch.allclose(fq.scale.reshape(-1), s.reshape(-1)) or not torch.equal(fq.zero_point.reshape(-1).long(), z.reshape(-1).long()):
            ctx.violation(key + '/params', 'the parameters are not those of the observer')
            return
        ctx.count('fake_quantized')
    tq.disable_fake_quant(fq)
    if not torch.equal(fq(x), x):
        ctx.violation(key + '/off', 'a disabled fake quantizer changes values')
    ctx.ok(ctx.desc, ctx.desc)


def bf16(x):
    """Round to nearest even on the bits of float32."""
    a = x.detach().float().numpy()
    b = a.view(np.uint32).astype(np.uint64)
    nan = np.isnan(a)
    b = ((b + 0x7fff + ((b >> 16) & 1)) & 0xffff0000).astype(np.uint32)
    out = b.view(np.float32).copy()
    out[nan] = np.nan
    return torch.from_numpy(out)


@C.family('bfloat16', quick=120, chunk=40)
def _bf16(ctx, i):
    from tinynn.graph.quantization import fake_quantize as FQ
    r = ctx.rng
    fq = FQ.FakeQuantizeBFloat16()
    holder = nn.Sequential(nn.Identity(), fq, nn.ReLU())
    on, hist = True, []
    for _ in range(r.choice([2, 4, 6])):
        op = r.choice(['run', 'run', 'run', 'off', 'on'])
        hist.append(op)
        if op in ('on', 'off'):
            with ctx.sut('bf16/switch', op):
                if r.random() < 0.5:
                    holder.apply(FQ.enable_fake_quant if op == 'on' else FQ.disable_fake_quant)
                else:
                    fq.enable_fake_quant(op == 'on')
            on = op == 'on'
            continue
        xs = [tensor(r, shape_of(r))[0] for _ in range(3)]
        if r.random() < 0.3:
            xs[0].view(-1)[0] = r.choice([math.inf, -math.inf, math.nan, 3.4e38, 0.0, -0.0])
        if r.random() < 0.3:
            xs[1] = torch.from_numpy((np.random.RandomState(r.randrange(1 << 30)).randint(0, 1 << 15, xs[1].shape).astype(np.uint32) << 16 | 0x8000).view(np.float32).copy())  # ties
        ints = torch.arange(7)
        arg = r.choice(['tensor', 'tuple', 'list', 'nested', 'int'])
        a = {'tensor': xs[0], 'tuple': tuple(xs), 'list': list(xs), 'nested': (xs[0], [xs[1], ints]), 'int': ints}[arg]
        hist[-1] = 'run-' + arg
        with ctx.sut('bf16/forward', arg):
            y = fq(a)
        flat = lambda v: [v] if isinstance(v, torch.Tensor) else [w for u in v for w in flat(u)]  # noqa: E731
        p, q = flat(a), flat(y)
        if len(p) != len(q):
            ctx.violation('bf16/structure', f'{len(q)} tensors for {len(p)}')
            return
        for u, v in zip(p, q):
            want = bf16(u) if on and u.is_floating_point() else u
            ctx.count('values', u.numel())
            if v.dtype != u.dtype or v.shape != u.shape or not torch.equal(torch.nan_to_num(v, nan=7.0), torch.nan_to_num(want.to(u.dtype), nan=7.0)) or not torch.equal(torch.isnan(v), torch.isnan(u)):
                ctx.violation('bf16/value' if on else 'bf16/off', f'differs from the nearest brain float ({arg}, {hist})')
                return
    ctx.desc = f'bfloat16 {hist}'
    ctx.ok(f'{hist}{i}', ctx.desc)


@C.family('lstm-weights', quick=90, chunk=30)
def _lstm(ctx, i):
    from tinynn.graph.quantization import utils
    from tinynn.graph.quantization.quantizer import QATQuantizer
    r = ctx.rng
    qmin, qmax = r.choice([(-127, 127), (-128, 127), (0, 255), (-32767, 32767)])
    asym = r.random() < 0.5
    if not asym and qmin == 0:
        qmin, qmax = -127, 127
    x, kind = tensor(r, shape_of(r))
    if x.abs().max() > 1e20:
        x, kind = tensor(r, shape_of(r), 'normal')
    eps = r.choice([1e-6, 1e-8])
    ctx.desc = f'fake_quantize asym={asym} {qmin}..{qmax} eps={eps} {kind} {tuple(x.shape)}'
    with ctx.sut('utils/run', 'fake_quantize'):
        y = utils.fake_quantize(x, asym=asym, eps=eps, quant_max=qmax, quant_min=qmin)
    lo, hi = min(float(x.min()), 0), max(float(x.max()), 0)
    step = max((hi - lo) / (qmax - qmin) if asym else max(-lo, hi) / ((qmax - qmin) / 2), eps)
    err = float((x - y).abs().max())
    # without a zero point in the middle, one step can be lost at the end of the range
    lim = (1.0 if asym or qmin + qmax != 0 else 0.5) + 1e-3 + (qmax - qmin) * 2e-6
    if not bool(torch.isfinite(y).all()) or err > lim * step + 1e-6 * float(x.abs().max()):
        ctx.violation(f'utils/error/{"asym" if asym else "sym"}', f'fake quantization is off by {err / step} steps ({kind} data in {float(x.min())}..{float(x.max())})')
        return
    if len(torch.unique((y / max(step, 1e-30)).round())) > qmax - qmin + 1:
        ctx.violation('utils/grid', 'more values than codes')
        return
    ctx.count('fake_quantized')
    if i % 3 == 0:
        class M(nn.Module):
            def __init__(self):
                super().__init__()
                self.lstm = nn.LSTM(4, r.choice([3, 5]), num_layers=r.choice([1, 2]), bidirectional=r.random() < 0.3)
                self.fc = nn.Linear(4, 4)

            def forward(self, x):
                return self.lstm(self.fc(x))[0]
        m = M()
        for p in m.lstm.parameters():
            p.data.mul_(r.choice([0.1, 1, 10]))
        sd = {k: v.clone() for k, v in m.state_dict().items()}
        with ctx.sut('lstm/run', 'fake_quantize_lstm_weights'):
            q = QATQuantizer(m, torch.randn(3, 2, 4), work_dir='out', config={'asymmetric': False})
            q.fake_quantize_lstm_weights(asym=asym)
        for k, v in m.state_dict().items():
            if k in ('lstm.weight_ih_l0', 'lstm.weight_hh_l0'):
                for a, b in zip(torch.chunk(v, 4), torch.chunk(sd[k], 4)):
                    st = max(float(b.abs().max()) / 127, 1e-6) * (1 if not asym else 1.01)
                    if float((a - b).abs().max()) > (0.5 if not asym else 1) * st * 1.001:
                        ctx.violation('lstm/error', f'{k} is off by {float((a - b).abs().max()) / st} steps')
            elif not torch.equal(v, sd[k]) and 'lstm' not in k:
                ctx.violation('lstm/others', f'{k} changes')
        q.restore_lstm_weights(q.model)
        for k, v in m.state_dict().items():
            if not torch.equal(v, sd[k]):
                ctx.violation('lstm/restore', f'{k} is not restored')
        ctx.desc += ' and the weights of an LSTM'
        ctx.count('lstm_models')
    ctx.ok(f'{ctx.desc}{i}', ctx.desc)


class Acts(nn.Module):
    def __init__(self, r):
        super().__init__()
        self.conv = nn.Conv2d(3, 4, 3, padding=1)
        self.act = r.choice([nn.ReLU(), nn.Identity(), nn.ReLU6(), nn.LeakyReLU(0.1)])
        self.sig = nn.Sigmoid() if r.random() < 0.4 else nn.Identity()
        self.conv2 = nn.Conv2d(4, 2, 1)

    def forward(self, x):
        return self.conv2(self.sig(self.act(self.conv(x))) + 1.0 * 0.5)


@C.family('rescale', quick=60, chunk=15)
def _rescale(ctx, i):
    import torch.ao.quantization as tq
    from tinynn.graph.quantization.quantizer import QATQuantizer
    r = ctx.rng
    asym = r.random() < 0.5
    m = Acts(r)
    d = torch.randn(2, 3, 6, 6)
    rng = r.choice([(0, 65535), (0, 65535), (0, 1023), (0, 4095), (0, 15)])
    ctx.desc = f'rescale to {rng}, asymmetric={asym}, {type(m.act).__name__}, {type(m.sig).__name__}'
    with ctx.sut('rescale/prepare', 'preparing'):
        q = QATQuantizer(m, d, work_dir=f'out{i}', config={'asymmetric': asym, 'per_tensor': r.random() < 0.5, 'legacy_fq': r.random() < 0.5})
        qm = q.quantize()
        shift = r.choice([0, 0, 2, -2])
        for _ in range(3):
            qm(torch.randn(2, 3, 6, 6) + shift)
    qm.apply(tq.disable_observer)
    old = {n: (f.scale.clone(), f.zero_point.clone(), f.quant_min, f.quant_max) for n, f in qm.named_modules() if isinstance(f, tq.FakeQuantize)}
    fixed = {n for n, f in qm.named_modules() if isinstance(f, tq.FixedQParamsFakeQuantize)}
    with ctx.sut('rescale/run', 'rescaling'):
        q.rescale_activations_with_quant_min_max(*rng)
    n_ = 0
    for n, f in qm.named_modules():
        if not isinstance(f, tq.FakeQuantize):
            continue
        s0, z0, a0, b0 = old[n]
        if 'weight_fake_quant' in n:
            if not torch.equal(f.scale, s0) or not torch.equal(f.zero_point, z0) or (f.quant_min, f.quant_max) != (a0, b0):
                ctx.violation('rescale/weight', f'{n}: weights are rescaled')
            continue
        if not check_params(ctx, 'rescale', f.scale, f.zero_point, *rng) or (f.quant_min, f.quant_max) != rng:
            if (f.quant_min, f.quant_max) != rng:
                ctx.violation('rescale/bits', f'{n} keeps {f.quant_min}..{f.quant_max}')
            return
        if n in fixed and rng == (0, 65535):
            continue  # aligned with the fixed parameters of TFLite
        s0, z0, s1, z1 = float(s0), float(z0), float(f.scale), float(f.zero_point)
        lo0, hi0 = s0 * (a0 - z0), s0 * (b0 - z0)
        lo1, hi1 = s1 * (rng[0] - z1), s1 * (rng[1] - z1)
        step = max(s0, s1) * 1.55 + 1e-9
        ctx.count('ranges')
        if abs(lo0 - lo1) > step or abs(hi0 - hi1) > step:
            ctx.violation('rescale/range', f'{n}: the range {lo0}..{hi0} (scale {s0}, zero point {z0}) becomes {lo1}..{hi1} (scale {s1}, zero point {z1})')
            return
        n_ += 1
    if not n_:
        ctx.skip('nothing to rescale')
    x = torch.randn(2, 3, 6, 6) + shift
    with ctx.sut('rescale/forward', 'running the rescaled model'):
        y = qm(x)
    if not bool(torch.isfinite(y).all()):
        ctx.violation('rescale/finite', 'outputs are not finite')
    ctx.ok(ctx.desc, ctx.desc)


if __name__ == '__main__':
    sys.exit(C.main())
