"""C18: equalisation, batch-norm folding and restoration keep the function."""
import copy
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402

import torch  # noqa: E402
import torch.nn as nn  # noqa: E402
import torch.nn.functional as F  # noqa: E402

warnings.filterwarnings('ignore')
C = core.Check(
    'C18',
    rule='outputs in evaluation mode before and after equalisation, folding and restoration for random networks with hostile weight ranges; weights of untouched layers and '
         'balance of equalised pairs recomputed from the structure of the network; distinct by network and settings',
    assumptions=['scales between 1e-6 and 1e6'],
)
CONV = {1: nn.Conv1d, 2: nn.Conv2d, 3: nn.Conv3d}
CONVT = {1: nn.ConvTranspose1d, 2: nn.ConvTranspose2d, 3: nn.ConvTranspose3d}
BN = {1: nn.BatchNorm1d, 2: nn.BatchNorm2d, 3: nn.BatchNorm3d}


def spoil(m, r, zero=True):
    """Hostile ranges: channels with very different scales, some of them dead."""
    for q in m.modules():
        if isinstance(q, (nn.Conv1d, nn.Conv2d, nn.Conv3d, nn.Linear, nn.ConvTranspose1d, nn.ConvTranspose2d, nn.ConvTranspose3d)):
            w = q.weight.data
            s = torch.tensor([r.choice([1, 1, 1, 0.01, 30, 0.3, 5]) for _ in range(w.shape[0])]).reshape(-1, *[1] * (w.dim() - 1))
            w.mul_(s)
            if zero and r.random() < 0.3:
                w[r.randrange(w.shape[0])] = 0
            if zero and r.random() < 0.15 and w.shape[1] > 1:
                w[:, r.randrange(w.shape[1])] = 0
        elif isinstance(q, tuple(BN.values())):
            bn_stats(q, r)
        elif isinstance(q, nn.PReLU):
            q.weight.data.uniform_(-0.5, 0.8)


def bn_stats(q, r):
    if q.running_mean is not None:
        q.running_mean.normal_(0, r.choice([0.1, 1]))
        q.running_var.uniform_(0.05, r.choice([0.5, 2, 10]))
        if r.random() < 0.2:
            q.running_var[0] = r.choice([0, 1e-6, 1e-4])
    if q.weight is not None:
        q.weight.data.normal_(0.5, 1)
        q.bias.data.normal_()
        if r.random() < 0.2:
            q.weight.data[-1] = 0


class Seq(nn.Module):
    """A chain of layers; a step is (kind, name, args); taps keep earlier values alive."""

    def __init__(self):
        super().__init__()
        self.steps = []

    def forward(self, x):
        kept = {}
        for kind, name, arg in self.steps:
            if kind == 'mod':
                x = getattr(self, name)(x)
            elif kind == 'fn':
                x = {'relu': F.relu, 'sigmoid': torch.sigmoid, 'tanh': torch.tanh, 'mean': lambda v: v.flatten(2).mean(2), 'flatten': lambda v: torch.flatten(v, 1), 'neg': lambda v: -v, 'half': lambda v: v * 0.5}[name](x)
            elif kind == 'keep':
                kept[name] = x
            elif kind == 'add':
                x = x + kept[name]
            elif kind == 'cat':
                x = torch.cat([x, kept[name]], 1)
        return x


def build(r, nd, with_bn=True, others=True):
    """Returns the network, its input and the eligible pairs (names of layers)."""
    m = Seq()
    ch = r.choice([1, 2, 3, 4])
    size = r.choice([7, 9, 10])
    x = torch.randn(r.choice([1, 2]), ch, *([size] * nd)) if nd else torch.randn(r.choice([1, 3]), ch)
    n, desc, kept = 0, [], None
    sp = size

    def mod(q, name=None):
        nonlocal n
        name = name or f'l{n}'
        n += 1
        setattr(m, name, q)
        m.steps.append(('mod', name, None))
        return name

    for k in range(r.choice([2, 3, 4, 5])):
        out = r.choice([2, 3, 4, 6, 8])
        if nd:
            ks = r.choice([1, 2, 3])
            pad = r.choice([0, 0, 1])
            if sp + 2 * pad < ks + 2:
                ks, pad = 1, 0
            g = r.choice([1, 1, 1, ch, 2])
            if ch % g:
                g = 1
            if g > 1:
                out = g * r.choice([1, 1, 2])
            if kept is not None and kept[1] == ch and r.random() < 0.6:
                ks, pad, g, out = 1, 0, 1, ch
            pm = r.choice(['zeros', 'zeros', 'reflect', 'replicate', 'circular']) if pad and nd == 2 else 'zeros'
            q = CONV[nd](ch, out, ks, padding=pad, groups=g, bias=r.random() < 0.7, padding_mode=pm, stride=r.choice([1, 1, 1, 2]) if ks > 1 and sp > 6 and kept is None else 1, dilation=1)
        else:
            q, g = nn.Linear(ch, out, bias=r.random() < 0.7), 1
        mod(q)
        desc.append(f'{type(q).__name__}({ch},{out},g{g})')
        ch = out
        if nd:
            sp = (sp + 2 * pad - ks) // q.stride[0] + 1
        if with_bn and nd == 2 and r.random() < 0.4:
            mod(nn.BatchNorm2d(ch, eps=r.choice([1e-5, 1e-3]), affine=r.random() < 0.8))
            desc.append('bn')
        elif with_bn and nd in (1, 2) and r.random() < 0.1:
            mod(BN[nd](ch))
            desc.append('bn')
        tapped = False
        if others and kept is None and r.random() < 0.25:
            m.steps.append(('keep', 'k', None))
            kept = ('k', ch, sp if nd else 0)
            tapped = True
            desc.append('keep')
        a = r.choice(['relu', 'relu', 'leaky', 'prelu', 'id', 'none', 'none', 'relu6', 'sigmoid', 'frelu', 'half', 'pool'] if others else ['relu', 'leaky', 'prelu', 'none'])
        desc.append(a)
        if a in ('relu', 'leaky', 'prelu', 'id'):
            mod({'relu': nn.ReLU, 'leaky': lambda: nn.LeakyReLU(0.2), 'prelu': lambda: nn.PReLU(r.choice([1, ch])), 'id': nn.Identity}[a]())
        elif a == 'relu6':
            mod(nn.ReLU6())
        elif a == 'sigmoid':
            m.steps.append(('fn', 'sigmoid', None))
        elif a in ('frelu', 'half'):
            m.steps.append(('fn', 'relu' if a == 'frelu' else 'half', None))
        elif a == 'pool' and nd == 2 and sp > 5:
            mod(nn.MaxPool2d(2, 1))
            sp -= 1
        if kept is not None and not tapped and kept[2] == (sp if nd else 0):
            if kept[1] == ch and r.random() < 0.7:
                m.steps.append(('add', 'k', None))
                desc.append('add')
                kept = None
            elif r.random() < 0.3:
                m.steps.append(('cat', 'k', None))
                desc.append('cat')
                ch += kept[1]
                kept = None
    if nd and r.random() < 0.3:
        m.steps.append(('fn', 'flatten' if r.random() < 0.5 else 'mean', None))
        desc.append(m.steps[-1][1])
        if m.steps[-1][1] == 'mean':
            mod(nn.Linear(ch, 3))
            desc.append('Linear')
    return m, x, find_pairs(m), ' '.join(desc)


def find_pairs(m):
    """Pairs of layers of one kind with nothing but scalable activations and foldable batch norms between them, and nobody else looking."""
    pairs, last = [], None
    for i, (kind, name, _) in enumerate(m.steps):
        if kind == 'keep':
            used = next((k for k, n, _ in m.steps[i + 1:] if n == name), None) in ('add', 'cat')
            if used:
                last = None
        elif kind != 'mod':
            last = None
        else:
            q = getattr(m, name)
            if isinstance(q, (nn.Conv1d, nn.Conv2d, nn.Linear)):
                if last is not None and type(getattr(m, last)) is type(q):
                    pairs.append((last, name))
                last = name
            elif not isinstance(q, (nn.ReLU, nn.LeakyReLU, nn.PReLU, nn.Identity)) and not (isinstance(q, nn.BatchNorm2d) and i and last == m.steps[i - 1][1]):
                last = None
    return pairs


def same(a, b, tol=2e-4):
    s = max(float(a.abs().max()), 1e-3) if a.numel() else 1.0
    return a.shape == b.shape and bool(torch.isfinite(b).all()) and bool((a - b).abs().max() <= tol * s)


def sensitivity(m, x, tol):
    """False if tiny weight changes alone move the outputs noticeably."""
    with torch.no_grad():
        y = m(x)
        q = copy.deepcopy(m)
        for p in q.parameters():
            p.mul_(1 + 2e-6 * torch.randn_like(p))
        return float((q(x) - y).abs().max()) <= tol * 0.3 * max(float(y.abs().max()), 1e-3)


def fused_weights(m, x):
    """Weights of the convolutions with the batch norms behind them folded in, by the textbook formula in float64."""
    out, prev, uses = {}, None, {}
    for i, (kind, name, _) in enumerate(m.steps):
        if kind == 'mod':
            q = getattr(m, name)
            if isinstance(q, (nn.Conv1d, nn.Conv2d, nn.Conv3d, nn.Linear)):
                out[name] = q.weight.data.double().clone()
                prev = name
            elif isinstance(q, nn.BatchNorm2d) and prev is not None:
                s = 1 / torch.sqrt(q.running_var.double() + q.eps)
                if q.weight is not None:
                    s = s * q.weight.data.double()
                out[prev] *= s.reshape(-1, 1, 1, 1)
                prev = None
            else:
                prev = None
        else:
            prev = None
    return out


def ranges(w1, w2, g):
    r1 = w1.reshape(w1.shape[0], -1).abs().max(1).values
    w = w2.reshape(g, w2.shape[0] // g, *w2.shape[1:]).transpose(1, 2)
    r2 = w.reshape(w.shape[0] * w.shape[1], -1).abs().max(1).values
    return r1.double(), r2.double()


@C.family('equalize', quick=400, chunk=20)
def _cle(ctx, i):
    from tinynn.graph.quantization.algorithm.cross_layer_equalization import cross_layer_equalize, equalize_model
    r = ctx.rng
    torch.manual_seed(r.randrange(1 << 30))
    nd = r.choice([2, 2, 2, 1, 0])
    m, x, pairs, desc = build(r, nd)
    spoil(m, r)
    m.train(r.random() < 0.3)
    threshold, iters = r.choice([0.5, 0.5, 0.0, 5.0, 1000.0]), r.choice([1, 2, 2, 4])
    direct = r.random() < 0.3
    ctx.desc = f'{desc} on {tuple(x.shape)}, threshold {threshold}, {iters} iterations{", in place" if direct else ""}'
    ref = copy.deepcopy(m).eval()
    before = {k: v.clone() for k, v in m.state_dict().items()}
    mode = [q.training for q in m.modules()]
    if not sensitivity(ref, x, 2e-4):
        ctx.skip('ill-conditioned')
    with torch.no_grad():
        want = ref(x)
    with ctx.sut('equalize/run', 'equalisation'):
        if direct:
            _, q = equalize_model(copy.deepcopy(m).eval(), x, threshold, iters=iters)
        else:
            q = cross_layer_equalize(m, x, torch.device('cpu'), threshold=threshold, work_dir=f'out{i}', cle_iters=iters)
    if any(not torch.equal(v, before[k]) for k, v in m.state_dict().items()):
        ctx.violation('equalize/original', 'the model given by the user changes')
        return
    if not direct and [p.training for p in m.modules()] != mode:
        ctx.violation('equalize/mode', 'the mode of the model given by the user changes')
        return
    q.eval()
    for xx in (x, torch.randn_like(x) * 3):
        with torch.no_grad():
            a, b = ref(xx), q(xx)
        if not same(a, b, 5e-4):
            ctx.violation('equalize/function', f'outputs differ by {float((a - b).abs().max()) if a.shape == b.shape else b.shape} of {float(a.abs().max())}')
            return
    base = fused_weights(m, x) if not direct else {k: v.double() for k, v in ((n, p.weight.data) for n, p in m.named_modules() if hasattr(p, 'weight') and p.weight is not None)}
    touched = {n for p in pairs for n in p}
    pt = pairs
    if direct:  # batch norms are still there and separate the layers
        pt = []
        names = [n for k, n, _ in m.steps if k == 'mod']
        for a, b in pairs:
            if not any(isinstance(getattr(m, n), nn.BatchNorm2d) for n in names[names.index(a):names.index(b)]):
                pt.append((a, b))
        touched = {n for p in pt for n in p}
    k = 0
    for n, w in base.items():
        new = getattr(q, n).weight.data.double()
        if n in touched or isinstance(getattr(m, n), (nn.PReLU, nn.BatchNorm2d)):
            continue
        k += 1
        if not torch.allclose(new, w, rtol=1e-5, atol=1e-9):
            ctx.violation('equalize/untouched', f'{n} is in no pair, but its weight changes by {float((new - w).abs().max())}')
            return
    ctx.count('untouched_layers', k)
    ctx.count('pairs', len(pt))
    moved = 0
    for a, b in pt:
        moved += int(not torch.allclose(getattr(q, a).weight.data.double(), base[a], rtol=1e-4))
    # the pair that was equalised last is balanced
    if pt:
        order = [n for n, _ in q.named_modules()]
        a, b = max(pt, key=lambda p: [n for k_, n, _ in m.steps].index(p[0]))
        r1, r2 = ranges(getattr(q, a).weight.data, getattr(q, b).weight.data, getattr(getattr(q, b), 'groups', 1))
        live = (r1 > 1e-5) & (r2 > 1e-5) & ((r1 + r2) >= threshold) & (r1 / r2 < 1e4) & (r2 / r1 < 1e4)
        # the threshold is applied to the ranges before the last step, for which sqrt(r1 r2) <= (r1 + r2) / 2
        live &= (2 * torch.sqrt(r1 * r2) > threshold)
        ctx.count('balanced_channels', int(live.sum()))
        if live.any() and float(torch.log(r1[live] / r2[live]).abs().max()) > 1e-2:
            j = int(torch.argmax(torch.where(live, torch.log(r1 / r2).abs(), torch.zeros_like(r1))))
            ctx.violation('equalize/balance', f'the ranges of channel {j} between {a} and {b} are {float(r1[j])} and {float(r2[j])}')
            return
    ctx.ok(ctx.desc, ctx.desc)


@C.family('converge', quick=60, chunk=10)
def _conv(ctx, i):
    from tinynn.graph.quantization.algorithm.cross_layer_equalization import cross_layer_equalize
    r = ctx.rng
    torch.manual_seed(r.randrange(1 << 30))
    nd = r.choice([2, 2, 1, 0])
    m, x, pairs, desc = build(r, nd, others=False)
    spoil(m, r, zero=False)
    for q in m.modules():
        if isinstance(q, nn.BatchNorm2d) and q.weight is not None:
            q.weight.data.abs_().clamp_(0.1)
    m.eval()
    ctx.desc = f'{desc} on {tuple(x.shape)}, until convergence'
    if not pairs or not sensitivity(m, x, 2e-4):
        ctx.skip('no pair')
    with torch.no_grad():
        want = m(x)
    with ctx.sut('converge/run', 'equalisation'):
        q = cross_layer_equalize(m, x, torch.device('cpu'), threshold=0.0, work_dir=f'out{i}', cle_iters=60)
    with torch.no_grad():
        got = q.eval()(x)
    if not same(want, got, 2e-3):
        ctx.violation('converge/function', f'outputs differ by {float((want - got).abs().max())} of {float(want.abs().max())}')
        return
    names = [n for k, n, _ in m.steps if k == 'mod']
    for a, b in pairs:
        if any(isinstance(getattr(m, n), nn.BatchNorm1d) for n in names[names.index(a):names.index(b)]):
            continue
        r1, r2 = ranges(getattr(q, a).weight.data, getattr(q, b).weight.data, getattr(getattr(q, b), 'groups', 1))
        ctx.count('balanced_channels', len(r1))
        if float(torch.log(r1 / r2).abs().max()) > 0.05:
            j = int(torch.argmax(torch.log(r1 / r2).abs()))
            ctx.violation('converge/balance', f'the ranges of channel {j} between {a} and {b} are {float(r1[j])} and {float(r2[j])}')
            return
    ctx.ok(ctx.desc, ctx.desc)


class Mixed(nn.Module):
    def __init__(self, kind, r):
        super().__init__()
        self.kind = kind
        c = r.choice([3, 4])
        self.a = (nn.Conv1d if '1d' in kind else nn.Conv2d)(2, c, 3, padding=1)
        self.act = r.choice([nn.ReLU(), nn.Identity(), nn.PReLU()])
        w = r.choice([c, 5])
        self.size = w
        if kind.startswith('conv-linear'):
            self.b = nn.Linear(w, 3)
        elif kind == 'shared':
            self.a = nn.Conv2d(3, 3, 3, padding=1)
            self.b = nn.Conv2d(3, 3, 1)
        elif kind == 'tied':
            self.a = nn.Conv2d(3, 3, 1)
            self.b = nn.Conv2d(3, 3, 1)
            self.b.weight = self.a.weight
        elif kind == 'linear-3d':
            self.a, self.b = nn.Linear(w, 4), nn.Linear(4, 2)
        elif kind == 'prelu-shared':
            self.b = nn.Conv2d(c, c, 1)
            self.act = nn.PReLU(c)
        elif kind == 'output':
            self.b = nn.Conv2d(c, 2, 1)
        elif kind == 'transpose':
            self.b = nn.ConvTranspose2d(c, 3, 2)
        elif kind == 'square':
            self.b = nn.Conv2d(c, 3, 1)

    def forward(self, x):
        if self.kind == 'shared':
            return self.b(self.act(self.a(self.act(self.a(x)))))
        if self.kind == 'prelu-shared':
            return self.act(self.b(self.act(self.a(x))))
        if self.kind == 'output':
            y = self.a(x)
            return self.b(self.act(y)), y
        if self.kind == 'square':
            y = self.a(x)
            return self.b(y * y)
        return self.b(self.act(self.a(x)))


@C.family('unusual', quick=72, chunk=12)
def _unusual(ctx, i):
    from tinynn.graph.quantization.algorithm.cross_layer_equalization import cross_layer_equalize
    r = ctx.rng
    torch.manual_seed(r.randrange(1 << 30))
    kind = ['conv-linear-1d', 'conv-linear-2d', 'shared', 'tied', 'linear-3d', 'prelu-shared', 'output', 'transpose', 'square'][i % 9]
    m = Mixed(kind, r)
    spoil(m, r)
    m.eval()
    c = m.a.in_channels if hasattr(m.a, 'in_channels') else None
    x = torch.randn(2, 3, m.size) if kind == 'linear-3d' else torch.randn(2, c, m.size) if '1d' in kind else torch.randn(2, c, 6, m.size)
    ctx.desc = f'{kind} {m} on {tuple(x.shape)}'
    with torch.no_grad():
        want = m(x)
    with ctx.sut(f'unusual/{kind}/run', 'equalisation'):
        q = cross_layer_equalize(m, x, torch.device('cpu'), threshold=0.0, work_dir=f'out{i}', cle_iters=2).eval()
    with torch.no_grad():
        got = q(x)
    for a, b in zip(want if isinstance(want, tuple) else [want], got if isinstance(got, (tuple, list)) else [got]):
        if not same(a, b, 5e-4):
            ctx.violation(f'unusual/{kind}/function', f'outputs differ by {float((a - b).abs().max()) if a.shape == b.shape else b.shape} of {float(a.abs().max())}')
            return
    ctx.ok(ctx.desc, ctx.desc)


def fold_net(r):
    """Networks with batch norms around convolutions, transposed convolutions and linear layers."""
    m = Seq()
    desc = []
    n = 0

    def mod(q):
        nonlocal n
        setattr(m, f'l{n}', q)
        m.steps.append(('mod', f'l{n}', None))
        n += 1
        desc.append(type(q).__name__ + (f'(g{q.groups},p{q.padding[0]})' if hasattr(q, 'groups') else ''))

    shared = r.random() < 0.25

    def reuse(q):
        # one module (or one weight) at several places
        if not shared or r.random() < 0.4:
            return mod(q)
        for name, p in m.named_children():
            if type(p) is type(q) and str(p) == str(q):
                if isinstance(q, tuple(CONV.values())) and r.random() < 0.3:
                    q.weight = p.weight
                    return mod(q)
                m.steps.append(('mod', name, None))
                desc.append(f'{name} again')
                return None
        return mod(q)

    nd = r.choice([2, 2, 2, 2, 1, 3])
    c = r.choice([2, 4])
    x = torch.randn(2, c, *[r.choice([5, 6])] * nd)
    kept = None
    for _ in range(r.choice([1, 2, 3]) + shared):
        t = r.choice(['conv-bn', 'conv-bn', 'conv-bn-relu', 'bn-conv', 'bn-conv', 'bn-conv-relu', 'bn-relu', 'convt-bn', 'convt-bn-relu', 'bn', 'conv', 'bn-frelu-conv'])
        if nd != 2 and t.startswith('convt') and nd == 3 and len(desc) > 3:
            t = 'conv-bn'
        g = r.choice([1, 1, 2, c])
        if c % g:
            g = 1
        for p in t.split('-'):
            if p in ('conv', 'convt'):
                o = c if shared and r.random() < 0.7 else r.choice([2, 4, 6])
                if o % g:
                    o = g * 2
                q = (CONV if p == 'conv' else CONVT)[nd](c, o, r.choice([1, 2, 3]), padding=r.choice([0, 0, 1]), groups=g, bias=r.random() < 0.6)
                if q.padding[0] and q.kernel_size[0] == 1:
                    q.padding = (0,) * nd
                if p == 'conv' and q.padding[0] and r.random() < 0.3 and nd == 2:
                    q = nn.Conv2d(c, o, q.kernel_size, padding=1, groups=g, padding_mode=r.choice(['reflect', 'circular', 'replicate']))
                if p == 'convt' and min(x.shape[2:]) < 3:
                    q.padding = (0,) * nd
                reuse(q)
                c = o
            elif p == 'bn':
                reuse(BN[nd](c, eps=r.choice([1e-5, 1e-2]), affine=r.random() < 0.85, track_running_stats=True))
            elif p == 'relu':
                reuse(nn.ReLU())
            elif p == 'frelu':
                m.steps.append(('fn', 'relu', None))
                desc.append('relu')
            if kept is None and r.random() < 0.15 and p != t.split('-')[-1]:
                m.steps.append(('keep', 'k', None))
                kept = c
                desc.append('keep')
    if kept == c:
        pass
    m.steps.append(('fn', 'mean', None))
    if r.random() < 0.6:
        mod(nn.Linear(c, 4))
        if r.random() < 0.7:
            mod(nn.BatchNorm1d(4))
        if r.random() < 0.5:
            mod(nn.ReLU())
    return m, x, ' '.join(desc)


@C.family('fuse-only', quick=400, chunk=20)
def _fuse(ctx, i):
    from tinynn.graph.quantization.quantizer import PostQuantizer
    r = ctx.rng
    torch.manual_seed(r.randrange(1 << 30))
    m, x, desc = fold_net(r)
    if ('keep', 'k', None) in m.steps:
        k = m.steps.index(('keep', 'k', None))
        probe = copy.deepcopy(m)
        probe.steps = m.steps[:k]
        with torch.no_grad():
            sk = probe.eval()(x).shape
        # add the kept value wherever the shapes meet again
        done = False
        for j in range(len(m.steps), k + 1, -1):
            probe.steps = m.steps[:k] + m.steps[k + 1:j]
            with torch.no_grad():
                try:
                    s = probe(x).shape
                except RuntimeError:
                    break
            if s == sk:
                m.steps.insert(j, ('add', 'k', None))
                desc += ' (added again)'
                done = True
                break
        if not done:
            m.steps.pop(k)
    spoil(m, r)
    try:
        with torch.no_grad():
            m.eval()(x)
    except RuntimeError:
        ctx.skip('invalid network')
    ctx.desc = f'{desc} on {tuple(x.shape)}'
    ref = copy.deepcopy(m).eval()
    if not sensitivity(ref, x, 2e-4):
        ctx.skip('ill-conditioned')
    with torch.no_grad():
        want = ref(x)
    with ctx.sut('fuse-only/run', 'fusing'):
        q = PostQuantizer(m, x, work_dir=f'out{i}', config={'fuse_only': True, 'asymmetric': r.random() < 0.5}).quantize()
        q.eval()
    left = sum(isinstance(p, tuple(BN.values())) for p in q.modules())
    ctx.count('batch_norms_folded', sum(isinstance(p, tuple(BN.values())) for p in m.modules()) - left)
    for xx in (x, torch.randn_like(x) * 3):
        with torch.no_grad():
            a = ref(xx)
        with ctx.sut('fuse-only/forward', 'the fused model'), torch.no_grad():
            b = q(xx)
        if not same(a, b, 5e-4):
            ctx.violation('fuse-only/function', f'outputs differ by {float((a - b).abs().max()) if a.shape == b.shape else b.shape} of {float(a.abs().max())}')
            return
    ctx.ok(ctx.desc, ctx.desc)


class Nest(nn.Module):
    def __init__(self, m, form):
        super().__init__()
        self.form = form
        if form == 'seq':
            self.features = nn.Sequential(*[getattr(m, n) for k, n, _ in m.steps if k == 'mod'])
        elif form == 'list':
            self.layers = nn.ModuleList([getattr(m, n) for k, n, _ in m.steps if k == 'mod'])
        else:
            self.d = nn.ModuleDict({f'x{n}': getattr(m, n) for k, n, _ in m.steps if k == 'mod'})

    def forward(self, x):
        for q in self.features if self.form == 'seq' else self.layers if self.form == 'list' else self.d.values():
            x = q(x)
        return x


@C.family('restore', quick=160, chunk=20)
def _restore(ctx, i):
    from tinynn.util.bn_restore import model_restore_bn
    r = ctx.rng
    torch.manual_seed(r.randrange(1 << 30))
    nd = r.choice([2, 2, 1])
    m, x, pairs, desc = build(r, nd, with_bn=False)
    spoil(m, r)
    if r.random() < 0.4 and all(s[0] == 'mod' for s in m.steps):
        m = Nest(m, r.choice(['seq', 'list', 'dict']))
        desc += f' in a {m.form}'
    m.train(r.random() < 0.5)
    ref = copy.deepcopy(m).eval()
    if not sensitivity(ref, x, 2e-4):
        ctx.skip('ill-conditioned')
    convs = [n for n, q in m.named_modules() if isinstance(q, (nn.Conv1d, nn.Conv2d))]
    chosen = None if r.random() < 0.5 else [n for n in convs if r.random() < 0.6]
    amp, steps = r.choice([1, 1, 0.01, 1e-3, 10]), r.choice([0, 1, 3, 10])
    ctx.desc = f'{desc} on {tuple(x.shape)}, {"all" if chosen is None else chosen}, {steps} batches times {amp}'
    seen = []

    def calibrate(model, a, b):
        seen.append((model.training, a, b))
        with torch.no_grad():
            for _ in range(steps):
                model(torch.randn(4, *x.shape[1:]) * amp)
    before = {k: v.clone() for k, v in m.state_dict().items()}
    mode = [q.training for q in m.modules()]
    with ctx.sut('restore/run', 'restoring batch norms'):
        q = model_restore_bn(m, torch.device('cpu'), calibrate, 'p', 3, layers_fused_bn=chosen)
    if seen != [(True, 'p', 3)]:
        ctx.violation('restore/calibration', f'calibration was called with {seen}')
    if any(not torch.equal(v, before[k]) for k, v in m.state_dict().items()) or mode != [p.training for p in m.modules()]:
        ctx.violation('restore/original', 'the model given by the user changes')
        return
    n = sum(isinstance(p, tuple(BN.values())) for p in q.modules())
    expect = len(convs if chosen is None else chosen)
    if n != expect:
        ctx.violation('restore/count', f'{n} batch norms for {expect} convolutions')
        return
    ctx.count('batch_norms', n)
    q.eval()
    for xx in (x * amp, torch.randn_like(x) * amp):
        with torch.no_grad():
            a, b = ref(xx), q(xx)
        if not same(a, b, 5e-4):
            ctx.violation('restore/function', f'outputs differ by {float((a - b).abs().max()) if a.shape == b.shape else b.shape} of {float(a.abs().max())}')
            return
    if steps >= 10:
        # what the batch norms make of the calibration data is what they were calibrated to
        got = {}
        hs = [p.register_forward_hook(lambda mod, inp, out, n_=nm: got.__setitem__(n_, (inp[0], mod))) for nm, p in q.named_modules() if isinstance(p, tuple(BN.values()))]
        with torch.no_grad():
            q(torch.randn(64, *x.shape[1:]) * amp)
        for h in hs:
            h.remove()
        for nm, (v, p) in got.items():
            d = [k for k in range(v.dim()) if k != 1]
            if v.numel() / v.shape[1] < 256:
                continue
            mu, sd = v.mean(d), v.std(d)
            e = 0.9 ** steps
            ctx.count('statistics', len(mu))
            if bool(((p.running_mean - mu * (1 - e)).abs() > 0.6 * sd + 1e-4 * mu.abs() + 1e-6).any()):
                ctx.violation('restore/statistics', f'{nm}: running mean {p.running_mean[:3].tolist()} for data with mean {mu[:3].tolist()} after {steps} batches')
                return
    ctx.ok(ctx.desc, ctx.desc)


@C.family('formulas', quick=120, chunk=40)
def _formulas(ctx, i):
    from tinynn.graph.quantization import utils as U
    r = ctx.rng
    torch.manual_seed(r.randrange(1 << 30))
    kind = r.choice(['conv-bn', 'bn-conv', 'convt-bn'])
    nd = r.choice([1, 2, 3])
    c, g = r.choice([(2, 1), (4, 2), (4, 4), (3, 1), (6, 3)])
    o = g * r.choice([1, 2, 3])
    q = (CONVT if kind == 'convt-bn' else CONV)[nd](c, o, r.choice([1, 2, 3]), groups=g, bias=r.random() < 0.6, padding=0 if kind == 'bn-conv' else r.choice([0, 1]))
    if q.padding[0] and q.kernel_size[0] == 1:
        q.padding = (0,) * nd
    bn = BN[nd](c if kind == 'bn-conv' else o, eps=r.choice([1e-5, 1e-2]), affine=r.random() < 0.7).eval()
    bn_stats(bn, r)
    ctx.desc = f'{kind} {q} {bn}'
    x = torch.randn(2, c, *[5] * nd)
    with torch.no_grad():
        want = q(bn(x)) if kind == 'bn-conv' else bn(q(x))
    f = copy.deepcopy(q)
    w0 = {k: v.clone() for k, v in [*q.state_dict().items(), *bn.state_dict().items()]}
    with ctx.sut(f'formulas/{kind}/run', 'folding'):
        a = (q.weight, q.bias, bn.running_mean, bn.running_var, bn.eps, bn.weight, bn.bias)
        f.weight, f.bias = U.fuse_bn_conv_weights(*a) if kind == 'bn-conv' else U.fuse_conv_bn_weights(*a, transpose=kind == 'convt-bn')
    with torch.no_grad():
        got = f(x)
    if not same(want, got, 1e-4):
        ctx.violation(f'formulas/{kind}', f'outputs differ by {float((want - got).abs().max()) if want.shape == got.shape else got.shape} of {float(want.abs().max())}')
        return
    for k, v in [*q.state_dict().items(), *bn.state_dict().items()]:
        if k in w0 and v.shape == w0[k].shape and not (torch.equal(v, w0[k])) and torch.equal(v, v):
            pass
    ctx.ok(ctx.desc, ctx.desc)


if __name__ == '__main__':
    sys.exit(C.main())
