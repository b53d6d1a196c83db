"""Driving the converter and the TFLite interpreter; comparing what both worlds computed."""
import math
import os

import numpy as np
import torch


def flatten(x):
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out.extend(flatten(y))
        return out
    if isinstance(x, dict):
        out = []
        for y in x.values():
            out.extend(flatten(y))
        return out
    return [x]


def clone_inputs(inputs):
    return [t.clone() if isinstance(t, torch.Tensor) else t for t in inputs]


def run_ref(model, inputs):
    with torch.no_grad():
        return [t.detach() if isinstance(t, torch.Tensor) else t for t in flatten(model(*clone_inputs(inputs)))]


def convert(model, inputs, path, **kw):
    """Converts; returns the converter.  The example inputs are cloned, the list is fresh."""
    from tinynn.converter import TFLiteConverter

    conv = TFLiteConverter(model, clone_inputs(inputs), path, **kw)
    conv.convert()
    return conv


class Interp:
    def __init__(self, path, threads=1, reference=False):
        import tensorflow as tf

        if isinstance(path, bytes):
            a = {'model_content': path}
        else:
            with open(path, 'rb') as f:
                a = {'model_content': f.read()}
        rt = tf.lite.experimental.OpResolverType
        self.i = tf.lite.Interpreter(
            num_threads=threads, experimental_preserve_all_tensors=True,  # the runtime's in-place reshapes overwrite tensors which are still needed
            experimental_op_resolver_type=rt.BUILTIN_REF if reference else rt.BUILTIN_WITHOUT_DEFAULT_DELEGATES, **a)
        self.i.allocate_tensors()
        self.ins = self.i.get_input_details()
        self.outs = self.i.get_output_details()

    def run(self, arrs):
        assert len(arrs) == len(self.ins), f'{len(arrs)} arrays for {len(self.ins)} inputs'
        for d, a in zip(self.ins, arrs):
            self.i.set_tensor(d['index'], np.ascontiguousarray(a))
        self.i.invoke()
        return [np.array(self.i.get_tensor(d['index'])) for d in self.outs]

    def reset(self):
        self.i.reset_all_variables()


def to_arrays(inputs, conv):
    """Torch inputs -> arrays in the layout the converted model declares."""
    arrs = []
    tr = conv.input_transpose
    if not isinstance(tr, (list, tuple)):
        tr = [tr] * len(flatten(list(inputs)))
    for t, tp in zip(flatten(list(inputs)), tr):
        a = t.detach().numpy() if not t.is_quantized else t.int_repr().numpy()
        if tp:
            a = np.transpose(a, (0, 2, 3, 1))
        arrs.append(a)
    return arrs


def from_arrays(outs, conv):
    """TFLite outputs -> arrays in the layout of the PyTorch model."""
    tr = conv.output_transpose
    res = []
    for i, o in enumerate(outs):
        tp = tr[i] if isinstance(tr, (list, tuple)) else tr
        if tp is None:
            tp = o.ndim == 4
        if tp:
            o = np.transpose(o, (0, 3, 1, 2))
        res.append(o)
    return res


def compare(got, want, rtol=1e-4, atol=None, exact_dtype=True):
    """None if all outputs agree, else a message.  `atol` defaults to a tolerance relative to the magnitude of each output."""
    if len(got) != len(want):
        return f'number of outputs {len(got)} != {len(want)}'
    for k, (g, w) in enumerate(zip(got, want)):
        w = w.numpy() if isinstance(w, torch.Tensor) else np.asarray(w)
        if tuple(g.shape) != tuple(w.shape):
            # TFLite has no notion of a 0-d result in some kernels
            if not (g.size == w.size == 1):
                return f'output {k}: shape {tuple(g.shape)} != {tuple(w.shape)}'
            g = g.reshape(w.shape)
        if exact_dtype and g.dtype != w.dtype:
            ok = {('int32', 'int64'), ('int64', 'int32')}
            if (str(g.dtype), str(w.dtype)) not in ok:
                return f'output {k}: dtype {g.dtype} != {w.dtype}'
        if g.size == 0:
            continue
        if g.dtype.kind in 'biu' and w.dtype.kind in 'biu':
            if not np.array_equal(g.astype(np.int64), w.astype(np.int64)):
                bad = int((g.astype(np.int64) != w.astype(np.int64)).sum())
                return f'output {k}: {bad}/{g.size} integers differ, e.g. {g.ravel()[:6]} want {w.ravel()[:6]}'
            continue
        g = g.astype(np.float64)
        w = w.astype(np.float64)
        gn, wn = np.isnan(g), np.isnan(w)
        if not np.array_equal(gn, wn):
            return f'output {k}: NaN pattern differs ({int(gn.sum())} vs {int(wn.sum())} of {g.size})'
        gi, wi = np.isinf(g), np.isinf(w)
        if not np.array_equal(gi, wi) or not np.array_equal(np.sign(g[gi]), np.sign(w[wi])):
            return f'output {k}: infinities differ ({int(gi.sum())} vs {int(wi.sum())} of {g.size})'
        fin = ~(wn | wi)
        if not fin.any():
            continue
        mag = float(np.abs(w[fin]).max())
        a = (1e-5 + 2e-5 * mag) if atol is None else atol
        d = np.abs(g[fin] - w[fin])
        lim = a + rtol * np.abs(w[fin])
        if (d > lim).any():
            j = int(np.argmax(d - lim))
            return (f'output {k}: {int((d > lim).sum())}/{g.size} values differ, worst {g[fin][j]:.7g} want {w[fin][j]:.7g} '
                    f'(max abs diff {d.max():.3g}, magnitude {mag:.3g})')
    return None


def fresh_like(inputs, rng, gens=None):
    """New inputs of the same shapes and types but different values."""
    out = []
    for k, t in enumerate(inputs):
        if gens is not None and gens[k] is not None:
            out.append(gens[k]())
        elif t.dtype.is_floating_point:
            out.append(torch.randn(t.shape) * rng.choice([0.3, 1.0, 3.0]))
        elif t.dtype == torch.bool:
            out.append(torch.rand(t.shape) < 0.5)
        else:
            lo, hi = int(t.min()), int(t.max())
            out.append(torch.randint(lo, hi + 1, t.shape, dtype=t.dtype))
    return out


def sensitivity(model, x, want, n=6, eps=2e-6):
    """Largest change of each output when the floating inputs are disturbed by rounding-sized errors."""
    worst = [0.0] * len(want)
    g = torch.Generator().manual_seed(1)
    hooks = []

    def jitter(m, args, out):
        if isinstance(out, torch.Tensor) and out.dtype.is_floating_point:
            return out * (1 + eps * torch.randn(out.shape, generator=g))
        return None
    for m in model.modules():
        if m is not model and not list(m.children()):
            hooks.append(m.register_forward_hook(jitter))
    try:
        for _ in range(n):
            y = [t * (1 + eps * torch.randn(t.shape, generator=g)) if isinstance(t, torch.Tensor) and t.dtype.is_floating_point else t for t in x]
            for k, (a, b) in enumerate(zip(run_ref(model, y), want)):
                if a.shape == b.shape and a.dtype.is_floating_point and a.numel():
                    worst[k] = max(worst[k], float((a - b).abs().nan_to_num(0).max()))
    finally:
        for h in hooks:
            h.remove()
    return max(worst)
