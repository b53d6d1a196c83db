"""C05: quantized models convert to TFLite models that agree within rounding."""
import contextlib
import copy
import io
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, progs, qgen, qtools, tfl, tflcheck  # noqa: E402

import numpy as np  # noqa: E402
import torch  # noqa: E402
from torch.utils._python_dispatch import TorchDispatchMode  # noqa: E402

warnings.filterwarnings('ignore')
C = core.Check(
    'C05',
    rule='random networks are quantized by both quantizers under random schemes, calibrated, converted to TFLite for signed and unsigned targets with random interface options and '
         'executed on several inputs; outputs must agree with the PyTorch quantized model within a few quantization steps (plus what one step of rounding at each operator can '
         'cause, measured by executing the PyTorch model with disturbed intermediate results); scales and zero points in the file are compared with those observed in PyTorch; '
         'distinct by program text and settings',
    assumptions=['the TFLite reference interpreter computes its operators as specified', 'quantized kernels of PyTorch compute what they specify'],
    preload=('torch', 'tnn', 'tf'),
)

MOVES = ('view', 'reshape', 'transpose', 'permute', 'slice', 'select', 'squeeze', 'unsqueeze', 'detach', 'clone', 'copy', 'contiguous', 'flatten', 'expand', 'split', 'chunk',
         'max_pool', 'alias', 'as_strided', 'empty', 'narrow', 'pad', 'nearest', 'relu', 'clamp', 'dequantize', 'int_repr', '_make_per', 'q_scale', 'q_zero', 'size', 'stride', 'resize',
         'index', 'unbind', 'randint', 'to.', '_to_copy', 'hardtanh', 'quantize_per_tensor', 't.default', 'repeat', 'lift')


class Watch(TorchDispatchMode):
    """Sees the results of all operators; optionally moves them by one step at random."""

    def __init__(self, jitter=0, inputs=False):
        super().__init__()
        self.inputs = inputs
        self.jitter, self.seen, self.steps, self.saturated = jitter, [], 0, False
        self.gen = torch.Generator().manual_seed(1)

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        n = str(func)
        if any(k in n for k in ('relu', 'clamp', 'hardtanh', 'sigmoid', 'hardswish', 'elu', 'tanh')):
            # some of these kernels mix up the values of tensors that are not contiguous
            args = tuple(a.contiguous() if isinstance(a, torch.Tensor) and a.is_quantized and a.dim() else a for a in args)
        out = func(*args, **(kwargs or {}))
        if isinstance(out, torch.Tensor) and out.is_quantized and out.qscheme() == torch.per_tensor_affine:
            if 'quantize_per_tensor' in n and out.numel():
                v = args[0] / out.q_scale() + out.q_zero_point()
                self.saturated |= bool((v > 255.5).any() or (v < -0.5).any())
            self.seen.append((n, float(out.q_scale()), int(out.q_zero_point()), out.dtype))
            if not any(k in n for k in MOVES) or n.startswith('quantized.') or (self.inputs and 'quantize_per_tensor' in n):
                self.steps += 1
                if not self.jitter and not self.saturated and out.numel():
                    v = out.int_repr()
                    self.saturated = bool((v == 255).any() or (v == 0).any() and out.q_zero_point() > 0)
                if self.jitter:
                    q = out.int_repr().to(torch.int32)
                    q = q + torch.randint(-1, 2, q.shape, generator=self.gen)
                    lo, hi = (0, 255) if out.dtype == torch.quint8 else (-128, 127)
                    q = q.clamp(lo, hi)
                    # results clamped by a fused activation stay clamped
                    if 'relu' in n:
                        q = q.clamp(min=out.q_zero_point())
                    q = q.to(torch.uint8 if out.dtype == torch.quint8 else torch.int8)
                    new = torch._make_per_tensor_quantized_tensor(q, out.q_scale(), out.q_zero_point())
                    if new.stride() != out.stride():
                        new = new.contiguous(memory_format=torch.channels_last) if out.dim() == 4 and out.is_contiguous(memory_format=torch.channels_last) else new
                    return new
        return out


def reference(m, x, jitter=0):
    w = Watch(jitter)
    with torch.no_grad(), w:
        y = qtools.flat(m(*[t.clone() for t in x]))
    return y, w


def quantize(ctx, r, m, x, kind, c):
    from tinynn.graph.quantization import quantizer as Q
    try:
        p, q = qtools.prepare(kind, copy.deepcopy(m), x, c, want_quantizer=True)
        p.train() if kind == 'qat' else p.eval()
        if kind == 'qat':
            p.apply(torch.quantization.enable_observer)
        with torch.no_grad():
            for _ in range(4):
                p(*tfl.fresh_like(x, r))
        p.eval()
        if kind == 'qat':
            p.apply(torch.quantization.disable_observer)
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            return q.convert(copy.deepcopy(p), backend='pytorch'), q.convert(p, backend='tflite')
    except Exception as e:
        ctx.skip('not quantizable: ' + core.norm_msg(e)[:60])


def options(r, c):
    o = {'quantize_target_type': 'int8'}
    if c['per_tensor'] and r.random() < 0.5:
        o['quantize_target_type'] = 'uint8'
    if r.random() < 0.5:
        o['fuse_quant_dequant'] = True
        if r.random() < 0.5:
            o['quantize_input_output_type'] = r.choice(['int8', 'uint8'])
    if r.random() < 0.3:
        o['nchw_transpose'] = False
    o['group_conv_rewrite'] = True
    if r.random() < 0.2:
        o['optimize'] = r.choice([1, 2, 3, 4])
    if r.random() < 0.2:
        o['rewrite_quantizable'] = True
    if r.random() < 0.1:
        o['tflite_micro_rewrite'] = True
    return o


def judge(ctx, key, ref, qm, x, opts):
    r = ctx.rng
    batches = [x] + [tfl.fresh_like(x, r) for _ in range(2)]
    refs = []
    for b in batches:
        try:
            y, w = reference(ref, b)
        except RuntimeError as e:
            ctx.skip('quantized model does not run: ' + core.norm_msg(e)[:50])
        refs.append((b, y, w))
    with ctx.sut(f'{key}/convert', f'conversion with {opts}'), contextlib.redirect_stderr(io.StringIO()):
        try:
            conv = tfl.convert(qm, x, 'm.tflite', **opts)
        except AssertionError as e:
            if 'Unsupported types: input_type: float32' in str(e) or 'Unsupported types: output_type: float32' in str(e):
                ctx.skip('interface is not quantized')
            if 'last_node.next is an output node' in str(e):
                ctx.skip('the output is the input')
            raise
    with ctx.sut(f'{key}/load', f'loading with {opts}'):
        try:
            it = tfl.Interp('m.tflite')
        except RuntimeError as e:
            if 'concatenation.cc' in str(e) and 'params' in str(e):
                # operators with fixed parameters cannot share those of the result, which the kernel for signed integers needs
                ctx.skip('concatenation of tensors with different parameters')
            raise
    f = tflcheck.File('m.tflite')
    if f.issues:
        return ctx.violation(f'{key}/file', f'ill-formed: {f.issues[:3]}')
    target = opts['quantize_target_type']
    shift = 128 if target == 'int8' else 0
    # scales and zero points of the file are those of PyTorch
    have = {}
    for t in f.tensors:
        if t.data is None and t.scale is not None and len(t.scale) == 1 and str(t.dtype) == target:
            have[(np.float32(t.scale[0]), int(t.zp[0]) + shift)] = t.name
    want = {(np.float32(s), z) for _, _, w in refs for n, s, z, d in w.seen if d == torch.quint8}
    ctx.count('scales_in_files', len(have))
    if have.keys() - want:
        want |= {(np.float32(s), z) for n, s, z, d in reference(qm, x)[1].seen}
    known = {s for s, z in want}
    for (s, z), name in have.items():
        if (s, z) not in want and not any(abs(float(s) / float(k) - 1) < 1e-6 and zz == z for k, zz in want) and opts.get('quantize_input_output_type') in (None, target):
            if (float(s), z) in ((1 / 256, 0), (1 / 128, 128), (1 / 256, 256)):
                continue  # results with a fixed range
            return ctx.violation(f'{key}/parameters', f'tensor {name} has scale {s} and zero point {z - shift}; PyTorch uses {sorted(want)[:8]}')
    outs = it.outs
    floats = any(o.name not in ('QUANTIZE', 'DEQUANTIZE', 'TRANSPOSE', 'RESHAPE') and any(f.tensors[t].dtype == np.float32 for t in o.outputs) for o in f.ops)
    for b, y, w in refs:
        arrs = tfl.to_arrays(b, conv)
        for k, d in enumerate(it.ins):
            sc, zp = d['quantization']
            if d['dtype'] != np.float32:
                info = np.iinfo(d['dtype'])
                arrs[k] = np.clip(np.round(arrs[k] / np.float32(sc)) + zp, info.min, info.max).astype(d['dtype'])
        with ctx.sut(f'{key}/run', f'interpreter with {opts}'):
            raw = it.run(arrs)
        got = []
        for d, a in zip(outs, raw):
            sc, zp = d['quantization']
            got.append((a.astype(np.float64) - zp) * sc if d['dtype'] != np.float32 else a.astype(np.float64))
        got = tfl.from_arrays(got, conv)
        if len(got) != len(y):
            return ctx.violation(f'{key}/outputs', f'{len(got)} outputs instead of {len(y)}')
        reach = None
        for k, (g, t) in enumerate(zip(got, y)):
            t = t.dequantize() if t.is_quantized else t
            t = t.numpy().astype(np.float64)
            if g.shape != t.shape:
                return ctx.violation(f'{key}/shape', f'output {k} has shape {g.shape} instead of {t.shape}')
            step = steps_of(t, [s for n, s, z, d in w.seen])
            e = np.abs(g - t).max() if t.size else 0
            ctx.count('values_compared', t.size)
            if e > 1.5 * step:
                if reach is None:
                    reach = [np.zeros(tuple(v.shape)) for v in y]
                    for seed in range(8):
                        z, _ = reference_j(ref, b, seed, floats and opts.get('fuse_quant_dequant'))
                        for q, (u, v) in enumerate(zip(z, y)):
                            u, v = (s.dequantize() if s.is_quantized else s for s in (u, v))
                            reach[q] = np.maximum(reach[q], np.abs(u.numpy().astype(np.float64) - v.numpy()))
                    ctx.count('disturbed_runs', 8)
                tol = 3 * reach[k].max() + 2.5 * step
                if e > tol and w.saturated and (floats or 'fake_activ' in str(ref)):
                    ctx.count('saturated_outputs')  # operators in between are computed in float or are fused, so that values are not clamped
                    continue
                if e > tol:
                    return ctx.violation(f'{key}/mismatch', f'output {k} differs by {e:.4g} ({e / step:.1f} steps of {step:.4g}, {tol / step:.1f} allowed), {int((np.abs(g - t) > tol).sum())} of {t.size} values; '
                                                           f'range {t.min():.4g} to {t.max():.4g}; {opts}')
    ctx.count('conversions')
    ctx.count('operators_in_files', len(it.i._get_ops_details()))
    return None


def reference_j(m, x, seed, inputs):
    # the quantization of values used by float operators only may be removed
    w = Watch(1, inputs)
    w.gen.manual_seed(seed)
    with torch.no_grad(), w:
        return qtools.flat(m(*[t.clone() for t in x])), w


def steps_of(t, scales):
    """The largest quantization step of the model that divides the values (their own step)."""
    if t.size == 0 or not scales:
        return 1e-6
    best = None
    for s in sorted(set(scales), reverse=True):
        q = t / s
        if np.abs(q - np.round(q)).max() < 1e-3:
            best = s
            break
    return best if best is not None else max(1e-6, 1e-5 * np.abs(t).max())


def case(ctx, key, n):
    r = ctx.rng
    torch.manual_seed(r.randrange(1 << 30))
    made = qgen.make(r, n, core=True, nout=r.choice([1, 1, 2]))
    if made is None:
        ctx.skip('empty program')
    src, x, feats = made
    m = progs.build(src)()
    qgen.randomize(m, r)
    m.eval()
    kind = r.choice(['qat', 'qat', 'ptq'])
    c = {'ignore_layerwise_config': True, 'asymmetric': r.random() < 0.7, 'per_tensor': r.random() < 0.6}
    if kind == 'ptq' and r.random() < 0.2:
        c['algorithm'] = 'kl'
    if r.random() < 0.2:
        c['set_quantizable_op_stats'] = True
    opts = options(r, c)
    if opts['quantize_target_type'] == 'int8':
        c['disable_requantization_for_cat'] = True  # needed by the kernel for signed integers
    ctx.desc = f'{kind} {c} {opts} inputs {[tuple(t.shape) for t in x]}\n{src}'
    ref, qm = quantize(ctx, r, m, x, kind, c)
    v = judge(ctx, key, ref, qm, x, opts)
    if v is None:
        ctx.ok(src + str(c) + str(opts), ctx.desc)


@C.family('single', quick=150, chunk=10)
def _single(ctx, i):
    """One or two operators."""
    case(ctx, 'single', ctx.rng.choice([1, 2]))


@C.family('networks', quick=150, chunk=10)
def _networks(ctx, i):
    case(ctx, 'networks', ctx.rng.choice([3, 5, 8, 12]))


if __name__ == '__main__':
    sys.exit(C.main())
