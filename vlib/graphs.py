"""Random float models for the converter: chains, branches, joins, shared tensors, several outputs."""
import math

import torch
import torch.nn as nn
import torch.nn.functional as F

from . import ops
from .ops import Fn

GROUPS = {
    'layout': ['permute', 'transpose', 'view', 'flatten', 'squeeze', 'unsqueeze', 't', 'permute', 'transpose', 'view'],
    'elem': ['relu', 'relu6', 'sigmoid', 'tanh', 'leaky_relu', 'hardswish', 'abs', 'neg', 'prelu', 'elu', 'sin', 'silu', 'clamp', 'hardtanh',
             'scalar_arith', 'param_arith', 'param_arith', 'softmax', 'log_softmax', 'hardsigmoid', 'square', 'sqrt', 'contiguous', 'clone', 'dropout'],
    'layer': ['conv2d', 'conv2d', 'conv2d', 'conv1d', 'linear', 'linear', 'batch_norm', 'batch_norm', 'max_pool2d', 'avg_pool2d', 'conv_transpose2d',
              'adaptive_pool', 'pad', 'upsample', 'pixel_shuffle', 'pixel_unshuffle', 'layer_norm', 'group_norm', 'instance_norm', 'glu'],
    'index': ['slice', 'slice', 'select', 'getitem', 'flip', 'roll', 'repeat', 'expand', 'split_cat', 'cat_self', 'repeat_interleave'],
    'reduce': ['reduce', 'reduce', 'norm', 'cumsum'],
}
WEIGHTS = {'layout': 6, 'elem': 6, 'layer': 6, 'index': 4, 'reduce': 1, 'binary': 5, 'motif': 4}


class Net(nn.Module):
    """A straight-line program over values: steps are (module, argument indices)."""

    def __init__(self, n_in, steps, outs):
        super().__init__()
        self.n_in = n_in
        self.mods = nn.ModuleList([m for m, _ in steps])
        self.args = [a for _, a in steps]
        self.outs = outs

    def values(self, *xs):
        vals = list(xs)
        for m, a in zip(self.mods, self.args):
            y = m(*[vals[i] for i in a])
            vals.append(y)
        return vals

    def forward(self, *xs):
        vals = self.values(*xs)
        out = [vals[i] for i in self.outs]
        return out[0] if len(out) == 1 else tuple(out)


def _ew(f):
    return Fn(lambda m, x: f(x))


def motif(r, s):
    """Sequences that rewriting passes look for, as lists of unary modules."""
    nd = len(s)
    out = []
    k = r.choice(['convbnrelu', 'padconv', 'permpair', 'perm_ew_perm', 'reshape_pair', 'slices', 'linadd', 'gathers', 'actact', 'expandmul', 'bnconv',
                  'perm_reshape', 'hswish', 'clampclamp', 'splitcat', 'perm_cat'])
    if k in ('convbnrelu', 'padconv', 'bnconv'):
        if nd != 4 or min(s[2:]) < 3:
            return None
        c, o = s[1], r.randint(1, 6)
        depth = r.random() < 0.3
        if depth:
            o = c
        conv = nn.Conv2d(c, o, r.choice([1, 3]), padding=r.choice([0, 1]), groups=c if depth else 1, bias=r.random() < 0.5)
        bn = nn.BatchNorm2d(o)
        act = _ew(r.choice([torch.relu, F.relu6, torch.tanh, F.hardswish, lambda x: F.leaky_relu(x, 0.1)]))
        if k == 'convbnrelu':
            out = [conv, bn] + ([act] if r.random() < 0.7 else [])
        elif k == 'padconv':
            p = [r.randint(0, 2) for _ in range(4)]
            out = [nn.ZeroPad2d(p), conv, act]
        else:
            out = [nn.BatchNorm2d(c), conv] + ([act] if r.random() < 0.5 else [])
    elif k in ('permpair', 'perm_ew_perm', 'perm_cat'):
        if nd < 2:
            return None
        p = list(range(nd))
        r.shuffle(p)
        q = [p.index(i) for i in range(nd)]
        if r.random() < 0.3:
            r.shuffle(q)
        a, b = (lambda p: _ew(lambda x: x.permute(*p)))(p), (lambda q: _ew(lambda x: x.permute(*q)))(q)
        if k == 'permpair':
            out = [a, b]
        elif k == 'perm_cat':
            d = r.randrange(nd)
            out = [a, _ew(lambda x: torch.cat([x, x.relu()], d)), b]
        else:
            s2 = [s[i] for i in p]
            mid = ops.make_unary(r, r.choice(['relu', 'param_arith', 'scalar_arith', 'slice', 'prelu', 'pad', 'reduce_keep', 'softmax', 'split_cat', 'repeat']
                                             if False else ['relu', 'param_arith', 'scalar_arith', 'slice', 'prelu', 'pad', 'softmax', 'split_cat',
                                                            'repeat', 'cumsum', 'leaky_relu', 'cat_self']), s2)
            if mid is None:
                return None
            out = [a, mid[0], b]
    elif k in ('reshape_pair', 'perm_reshape'):
        t = ops._factor(r, math.prod(s), r.choice([2, 3, 4, 4]))
        back = list(s)
        a, b = _ew(lambda x: x.reshape(t)), _ew(lambda x: x.reshape(back))
        if k == 'reshape_pair':
            mid = ops.make_unary(r, r.choice(['relu', 'scalar_arith', 'tanh', 'param_arith']), t)
            out = [a] + ([mid[0]] if mid and r.random() < 0.6 else []) + [b]
        else:
            if nd < 2:
                return None
            d0, d1 = r.sample(range(nd), 2)
            out = [_ew(lambda x: x.transpose(d0, d1)), a, _ew(torch.relu) if r.random() < 0.5 else _ew(lambda x: x * 2.0)]
    elif k == 'slices':
        ds = [i for i, v in enumerate(s) if v >= 3]
        if not ds:
            return None
        d = r.choice(ds)
        out = [_ew(lambda x: x[(slice(None),) * d + (slice(1, None),)]), _ew(lambda x: x[(slice(None),) * d + (slice(0, -1),)])]
        if r.random() < 0.4:
            d2 = r.randrange(nd)
            out.append(_ew(lambda x: x[(slice(None),) * d2 + (slice(0, 1),)]))
    elif k == 'linadd':
        if nd < 2:
            return None
        o = r.randint(1, 6)
        c = torch.randn(r.choice([[o], [1], [1] * (nd - 1) + [o]]))
        w = torch.randn(s[-1], o)
        first = nn.Linear(s[-1], o, bias=r.random() < 0.5) if r.random() < 0.6 else Fn(lambda m, x: torch.matmul(x, m.w), w=w)
        second = Fn(lambda m, x: x + m.c, c=c) if r.random() < 0.6 else Fn(lambda m, x: x * m.c, c=c)
        out = [first, second] + ([_ew(torch.relu)] if r.random() < 0.5 else [])
    elif k == 'gathers':
        d = r.randrange(nd)
        i1 = torch.randint(0, s[d], [r.randint(1, 5)])
        d2 = r.randrange(nd) if r.random() < 0.5 else d
        n2 = len(i1) if d2 == d else s[d2]
        i2 = torch.randint(0, n2, [r.randint(1, 5)])
        out = [Fn(lambda m, x: torch.index_select(x, d, m.i), i=i1), Fn(lambda m, x: torch.index_select(x, d2, m.i), i=i2)]
    elif k == 'actact':
        out = [_ew(r.choice([torch.relu, F.relu6, torch.tanh])), _ew(r.choice([torch.relu, F.relu6, torch.abs]))]
    elif k == 'clampclamp':
        lo = r.choice([-1, 0])
        out = [_ew(lambda x: x.clamp(0, 6)), _ew(lambda x: x.clamp(lo, 1))]
    elif k == 'expandmul':
        c = torch.randn([1 if r.random() < 0.5 else v for v in s])
        out = [Fn(lambda m, x: x * m.c.expand(*s), c=c), _ew(torch.relu)]
    elif k == 'hswish':
        out = [_ew(lambda x: x * F.relu6(x + 3) / 6)] if r.random() < 0.5 else [_ew(lambda x: F.relu6(x + 3.0) * (1.0 / 6.0))]
    elif k == 'splitcat':
        ds = [i for i, v in enumerate(s) if v % 2 == 0]
        if not ds:
            return None
        d = r.choice(ds)

        def f(m, x):
            a, b = torch.chunk(x, 2, d)
            return torch.cat([b, a.relu()], d)
        out = [Fn(f)]
    return out, k


def build(r, n_steps=None, shapes=None, max_inputs=2, ranks=(2, 3, 4, 4, 4), limit=40.0, groups=None, multi_out=True, avoid=()):
    """A random model: (Net, inputs, description)."""
    for _ in range(50):
        res = _build(r, n_steps, shapes, max_inputs, ranks, limit, groups, multi_out, avoid)
        if res is not None:
            return res
    return None


def _usable(y, limit):
    return isinstance(y, torch.Tensor) and y.dtype == torch.float32 and 0 < y.numel() <= 3000 and 1 <= y.dim() <= 5 and \
        bool(torch.isfinite(y).all()) and float(y.abs().max()) <= limit


def _build(r, n_steps, shapes, max_inputs, ranks, limit, groups, multi_out, avoid):
    n_in = len(shapes) if shapes else r.randint(1, max_inputs)
    if shapes is None:
        s0 = ops.img(r) if 4 in ranks and r.random() < 0.6 else ops.shape(r, r.choice(ranks), hi=6)
        shapes = [s0]
        for _ in range(n_in - 1):
            shapes.append(list(s0) if r.random() < 0.6 else (ops.img(r) if r.random() < 0.5 else ops.shape(r, r.choice(ranks), hi=6)))
    inputs = [torch.randn(s) for s in shapes]
    vals, steps, tags = list(inputs), [], []
    pool = dict(GROUPS)
    w = dict(WEIGHTS)
    if groups:
        w = {k: v for k, v in w.items() if k in groups}
    n_steps = n_steps or r.randint(2, 9)
    tries = 0

    def push(mod, args, tag):
        mod = ops.rnd_affine(mod)
        try:
            with torch.no_grad():
                y = mod(*[vals[i] for i in args])
        except (RuntimeError, ValueError, IndexError):
            return False
        if not _usable(y, limit):
            return False
        # a value that equals an input is not a valid output; keep such no-ops inside the graph only
        steps.append((mod, args))
        vals.append(y)
        tags.append(f'{tag}({",".join(map(str, args))})')
        return True

    def pick():
        # favour recent values so that chains form, but branch as well
        n = len(vals)
        return n - 1 if r.random() < 0.6 else r.randrange(n)

    while len(steps) < n_steps and tries < n_steps * 12:
        tries += 1
        g = r.choices(list(w), list(w.values()))[0]
        i = pick()
        s = list(vals[i].shape)
        if g == 'motif':
            mt = motif(r, s)
            if mt is None:
                continue
            mods, k = mt
            cur = i
            for m in mods:
                if not push(m, [cur], k):
                    break
                cur = len(vals) - 1
        elif g == 'binary':
            same = [j for j in range(len(vals)) if list(vals[j].shape) == s and j != i]
            nonc = [(j, d) for j in range(len(vals)) for d in range(len(s)) if vals[j].dim() == len(s) and j != i
                    and all(vals[j].shape[e] == s[e] for e in range(len(s)) if e != d)]
            bc = []
            for j in range(len(vals)):
                try:
                    if j != i and max(vals[j].dim(), len(s)) <= 4 and math.prod(torch.broadcast_shapes(s, vals[j].shape)) <= 2000:
                        bc.append(j)
                except RuntimeError:
                    pass
            k = r.choice(['arith', 'arith', 'cat', 'cat', 'bcast', 'stack', 'matmul'])
            if k == 'arith' and same:
                f = r.choice([torch.add, torch.sub, torch.mul, torch.maximum, torch.minimum, lambda a, b: a / (b.abs() + 0.5),
                              lambda a, b: (a - b) ** 2, lambda a, b: a + b.relu()])
                push(Fn(lambda m, x, y, f=f: f(x, y)), [i, r.choice(same)], 'arith')
            elif k == 'bcast' and bc:
                f = r.choice([torch.add, torch.sub, torch.mul, torch.maximum])
                push(Fn(lambda m, x, y, f=f: f(x, y)), [i, r.choice(bc)], 'bcast')
            elif k == 'cat' and nonc:
                j, d = r.choice(nonc)
                dd = d if r.random() < 0.5 else d - len(s)
                push(Fn(lambda m, x, y, d=dd: torch.cat([x, y], d)), [i, j] if r.random() < 0.5 else [j, i], f'cat{d}')
            elif k == 'stack' and same and len(s) < 5:
                d = r.randint(0, len(s))
                push(Fn(lambda m, x, y, d=d: torch.stack([x, y], d)), [i, r.choice(same)], f'stack{d}')
            elif k == 'matmul' and same and 2 <= len(s) <= 4:
                push(Fn(lambda m, x, y: torch.matmul(x, y.transpose(-1, -2)) * 0.3), [i, r.choice(same)], 'matmul')
        else:
            name = r.choice(pool[g])
            if name in ops.DISCONT or name in ops.TERMINAL or name in avoid:
                continue
            x = ops.make_unary(r, name, s)
            if x is not None:
                push(x[0], [i], name + '[' + x[2] + ']')

    if len(steps) < 1:
        return None
    used = set(a for _, args in steps for a in args)
    leaves = [i for i in range(n_in, len(vals)) if i not in used]
    inner = [i for i in range(n_in, len(vals)) if i in used]
    outs = leaves if len(leaves) <= 3 else r.sample(leaves, 3)
    if not multi_out:
        outs = [leaves[-1]]
    elif inner and r.random() < 0.35:
        outs = outs + [r.choice(inner)]
    if multi_out:
        r.shuffle(outs)
    if any(vals[o].shape == x.shape and torch.equal(vals[o], x) for o in outs for x in inputs):
        return None
    # outputs that are different names of one tensor are not told apart by the runtime
    net = Net(n_in, steps, outs).eval()
    # drop steps that do not reach an output, and inputs that are not used
    live = set(outs)
    for k in range(len(steps) - 1, -1, -1):
        if n_in + k in live:
            live.update(steps[k][1])
    if any(i not in live for i in range(n_in)):
        return None
    if len(live) < len(vals):
        remap = {}
        nv = 0
        nsteps = []
        for v in range(len(vals)):
            if v in live:
                remap[v] = nv
                nv += 1
                if v >= n_in:
                    nsteps.append((steps[v - n_in][0], [remap[a] for a in steps[v - n_in][1]]))
        tags = [t for v, t in enumerate(tags) if v + n_in in live]
        net = Net(n_in, nsteps, [remap[o] for o in outs]).eval()
    return net, inputs, f'{[list(x.shape) for x in inputs]} {" ".join(tags)} -> {net.outs}', tags
