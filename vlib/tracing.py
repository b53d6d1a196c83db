"""Tracing helpers: snapshot of everything the tracer could patch, programs that fail, digests of generated code."""
import contextlib
import copy
import gc
import hashlib
import io
import random
import re
import sys

import torch
import torch.nn as nn

from . import progs, zoo

SKIP_ATTR = {'__slotnames__', '__dict__', '__weakref__', '__abstractmethods__', '__subclasshook__', '__init_subclass__', '__class__'}


def namespaces():
    """(label, object) whose attributes are compared: modules of functions and classes."""
    import builtins
    import torchvision  # noqa
    out = [('builtins', builtins)]
    for n in sorted(sys.modules):
        m = sys.modules[n]
        if m is None or not (n == 'torch' or re.match(r'torch\.(nn|_C|linalg|special|fft|functional|overrides|_tensor|jit|autograd|random|_ops|quantization|ao\.nn|ao\.quantization|fx|serialization)(\.|$)', n)
                             or n.startswith('torchvision.ops')):
            continue
        out.append((n, m))
    return out


def classes():
    seen, out, stack = set(), [], [nn.Module, torch.Tensor, torch.Size, torch._C._TensorBase, torch.autograd.Function, torch.nn.Parameter, torch.dtype, torch.device]
    while stack:
        c = stack.pop()
        if id(c) in seen:
            continue
        seen.add(id(c))
        if not (c.__module__ or '').startswith(('tinynn', 'vlib', '__main__', 'checks')):
            out.append(c)
        with contextlib.suppress(TypeError):
            stack.extend(c.__subclasses__())
    return [c for c in out if (c.__module__ or '').split('.')[0] in ('torch', 'torchvision', 'builtins')]


def snapshot(labels=None):
    """{(owner, name): object}; strong references keep identities meaningful."""
    snap = {}
    ns = labels if labels is not None else namespaces()
    for label, m in ns:
        for k, v in list(vars(m).items()):
            if callable(v) or isinstance(v, (bool, int, str, float)):
                snap[(label, k)] = v
    return snap


def snapshot_classes(cls):
    snap = {}
    for c in cls:
        label = f'{c.__module__}.{c.__qualname__}'
        for k in dir(c):
            if k in SKIP_ATTR:
                continue
            try:
                snap[(label, k)] = getattr(c, k)
            except AttributeError:
                pass
    return snap


class World:
    """Everything that tracing patches, as it was when this object was made."""

    def __init__(self):
        self.ns = namespaces()
        self.cls = classes()
        self.snap = {**snapshot(self.ns), **snapshot_classes(self.cls)}

    def diff(self):
        now = {**snapshot(self.ns), **snapshot_classes(self.cls)}
        out = []
        for k, v in self.snap.items():
            w = now.get(k, None)
            if w is not v:
                try:
                    same = type(w) is type(v) and bool(w == v)  # bound methods and method wrappers are made anew on each access
                except Exception:
                    same = False
                if not same:
                    out.append(f'{k[0]}.{k[1]}')
        for k in now:
            if k not in self.snap and k[0] != 'builtins':
                out.append(f'{k[0]}.{k[1]} (new)')
        return out


MODES = ('grad', 'inference', 'dtype', 'threads', 'deterministic', 'engine', 'anomaly', 'autocast', 'mkldnn', 'print', 'np_print', 'np_err', 'jit_exec',
         'profiling', 'tracing', 'default_device')


def modes():
    w = zoo.world_state()
    return {k: w[k] for k in MODES}


class Stop(BaseException):
    """Raised by programs to be stopped from outside, like KeyboardInterrupt."""


FAULTS = ["raise ValueError('model code fails')", 'torch.randn(2, 3) @ torch.randn(2, 3)', 'torch.cat([torch.zeros(2, 3), torch.zeros(3, 4)], 0)',
          "self.nothing", "raise KeyboardInterrupt()", "nn.Linear(3, 4)(torch.zeros(2, 5))", "F.conv2d(torch.zeros(1, 2, 3, 3), torch.zeros(1, 3, 1, 1))",
          'torch.zeros(2)[5]', 'torch.zeros(2, 2).view(3)', 'nn.Sequential(nn.ReLU(), nn.Linear(2, 2))(torch.zeros(1, 3))',
          "raise SystemExit(3)", "raise torch.cuda.OutOfMemoryError('no memory')", 'torch.tensor([1, 2]) + object()', 'nn.LSTM(2, 2)(torch.zeros(1, 1, 3))',
          'torch.zeros(2, 3).size(7)', "torch.zeros(1, requires_grad=True).add_(1)", "F.dropout(torch.zeros(1), p=2.0)", '[].pop()', "nn.Conv2d(3, 4, 5, groups=2)",
          'raise StopIteration()', 'Failing()(torch.zeros(2))', 'torch.no_grad().__enter__() and None or self.nothing2']


def with_fault(src, r):
    """Inserts a failing statement at a random place of the forward pass (or of the constructor)."""
    lines = src.split('\n')
    f = next(k for k, x in enumerate(lines) if x.strip().startswith('def forward'))
    ends = [k for k in range(f + 1, len(lines) + 1) if k == len(lines) or lines[k].startswith('        ') and not lines[k].startswith('         ')]
    ends = [k for k in ends if k <= len(lines) and (k == len(lines) or lines[k].strip())]
    at = r.choice(ends[:-1] if len(ends) > 1 else ends)
    fault = r.choice([x for x in FAULTS if 'no_grad' not in x])
    return '\n'.join(lines[:at] + ['        ' + fault] + lines[at:]), fault


def trace(model, x, **kw):
    """Traces quietly; returns (graph or None, name of the exception)."""
    from tinynn.graph.tracer import trace as t
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            return t(model, x, **kw), ''
    except SystemExit:
        return None, 'SystemExit'
    except (KeyboardInterrupt, Exception) as e:
        return None, type(e).__name__


def code_of(graph, name='Gen'):
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        graph.generate_code('c.py', 'c.pth', name)
    with open('c.py') as f:
        text = f.read()
    w = torch.load('c.pth')
    h = hashlib.sha256()
    for k in w:
        h.update(k.encode() + str(w[k].dtype).encode() + str(tuple(w[k].shape)).encode() + w[k].detach().contiguous().view(torch.uint8 if w[k].dim() else w[k].dtype).numpy().tobytes())
    return text, h.hexdigest()


def program_for(seed, k, **kw):
    r, h = zoo.rng_of('prog', seed, k)
    torch.manual_seed(h)
    random.seed(h)
    made = progs.make(r, **kw)
    if made is None:
        return None
    src, inputs, _ = made
    opts = {}
    if r.random() < 0.25:
        opts['patch_torch_size'] = True
    if r.random() < 0.25:
        opts['eliminate_dead_graph'] = True
    return src, inputs, opts, 'MultiheadAttention' in src or r.random() < 0.5, h


def digest(seed, k):
    """Traces program k in this process: (program hash, digest of generated code and weights or error, text)."""
    p = program_for(seed, k, hostile=k % 2 == 0)
    if p is None:
        return None
    src, inputs, opts, ctor, h = p
    from tinynn.graph.tracer import model_tracer
    torch.manual_seed(h)
    with model_tracer() if ctor else contextlib.nullcontext():
        m = progs.build(src)().eval()
        g, err = trace(m, inputs, **opts)
        if g is None:
            return [hashlib.sha256(src.encode()).hexdigest(), 'error ' + err, '']
        text, w = code_of(g)
    return [hashlib.sha256(src.encode()).hexdigest(), hashlib.sha256((text + w).encode()).hexdigest(), text[text.find('class'):text.find('if __name__')]]


def fail(how, seed):
    """A trace that fails (or is odd) in some way, as history."""
    r, h = zoo.rng_of('fail', how, seed)
    p = None
    k = 0
    while p is None:
        p = program_for(seed, f'f{how}{k}', hostile=True)
        k += 1
    src, inputs, opts, ctor, h = p
    src, fault = with_fault(src, r)
    from tinynn.graph.tracer import model_tracer
    try:
        with model_tracer() if r.random() < 0.7 else contextlib.nullcontext():
            m = progs.build(src)()
            g, err = trace(m, inputs, **opts)
            return err or 'traced'
    except BaseException as e:
        return type(e).__name__


__all__ = ['World', 'modes', 'trace', 'code_of', 'digest', 'fail', 'with_fault', 'program_for', 'copy', 'gc']
