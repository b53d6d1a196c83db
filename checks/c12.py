"""C12: a physically pruned model computes what the masked model computed."""
import contextlib
import copy
import io
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402
from vlib import prunegen as pg  # noqa: E402

import torch  # noqa: E402

C = core.Check(
    'C12',
    rule='random convolutional, linear and recurrent networks with residual, concatenated, split, grouped, depthwise and reshaped channels; the kept channels of '
         'every layer are recovered from the weights alone, compared across coupled layers, and the outputs compared with the original network whose layers '
         'ignore the removed channels and with the network under the registered masks; distinct by network and configuration',
    assumptions=['ratios that leave at least one channel in every group', 'no statistics over pruned channels where outputs are compared (layer norm)'],
)
METRICS = ['l1_norm', 'l2_norm', 'random']


def quietly(f, *a, **kw):
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


def chain(g, t, n):
    """Layers that keep the structure simple: one source layer for every channel."""
    r = g.r
    for _ in range(n):
        u = r.random()
        if u < 0.45:
            t = g.conv(t, transpose=r.random() < 0.12)
        elif u < 0.55:
            t = g.norm(t)
        elif u < 0.65:
            t = g.act(t)
        elif u < 0.75 and pg.FIXED not in t.ch:
            t = g.depthwise(t)
        elif u < 0.8 and pg.FIXED not in t.ch:
            t = g.prelu(t)
        elif u < 0.88:
            t = g.pool(t) if t.hw[0] <= 16 else g.conv(t, k=3)
        elif u < 0.92:
            t = g.pad(t)
        else:
            t = g.scale(t)
    return t


def head(g, t):
    """The end of the network."""
    r = g.r
    u = r.random()
    if u < 0.35:
        t = g.flatten(t) if t.hw[0] * t.hw[1] * t.c <= 600 else g.squeeze_mean(t)
        if r.random() < 0.4:
            t = g.linear(t)
            t = g.act(t) if r.random() < 0.5 else (g.norm(t) if r.random() < 0.5 else t)
        return g.linear(t)
    if u < 0.5:
        return g.linear(g.squeeze_mean(t))
    return t


def body(g, t, n, x=None):
    """Blocks that couple channels.  x: the input of the network, joined now and then."""
    r = g.r
    for _ in range(n):
        u = r.random()
        if x is not None and x.hw == t.hw and r.random() < 0.12:
            t = g.cat([t, x] if r.random() < 0.5 else [x, t]) if r.random() < 0.4 else g.binary(g.conv(t, out=x.c), x)
            if pg.FIXED in t.ch or r.random() < 0.5:
                t = g.conv(t)
            continue
        if pg.FIXED in t.ch or u < 0.25:
            t = chain(g, g.conv(t), r.choice([0, 1, 2]))
        elif u < 0.5:  # residual
            a = g.conv(g.act(t) if r.random() < 0.3 else t, k=r.choice([1, 3]))
            if r.random() < 0.5:
                a = g.norm(a)
            b = t
            if a.c == t.c and r.random() < 0.5:
                pass
            else:
                b = g.conv(t, out=a.c, k=1)
            t = g.binary(a, b) if r.random() < 0.8 else g.binary(b, a)
        elif u < 0.68:  # concatenation
            parts = [g.conv(t, k=1) for _ in range(r.choice([1, 2]))] + ([t] if r.random() < 0.6 else [])
            if len(parts) < 2:
                parts.append(g.act(g.conv(t, k=3)))
            if r.random() < 0.3:
                r.shuffle(parts)
            t = g.cat(parts)
        elif u < 0.78 and t.c % 2 == 0 and t.c >= 4:  # split
            if r.random() < 0.4:
                a, b = g.split(t, equal=True)
                t = g.conv(g.binary(a, b))
            else:
                a, b = g.split(t)
                if r.random() < 0.5:
                    a = g.conv(a, out=r.choice([4, b.c]), k=1)
                t = g.cat([a, b] if r.random() < 0.5 else [b, a])
        elif u < 0.84:  # attention over channels
            s = g.conv(t, out=t.c, k=1)
            g.new()
            s = g.emit(f'torch.sigmoid({s.name})', s.ch, s)
            t = g.binary(t, s)
        elif u < 0.9 and t.c % 4 == 0 and t.c >= 8 and t.hw[0] <= 8:
            t = g.shuffle(g.conv(t, out=r.choice([8, 12, 16]), k=1))
        elif u < 0.95:
            t = g.depthwise(t)
        else:
            t = g.norm(t)
    return t


def sparsities(g, r, pool=(0.25, 0.3, 0.5, 0.5, 0.6)):
    d = r.choice(pool)
    if r.random() < 0.5:
        return d
    return d


def load(graph, name):
    quietly(graph.generate_code, f'{name}.py', f'{name}.pth', 'Gen')
    from tinynn.util.util import import_from_path
    m = import_from_path(f'gen_{name}_{os.getpid()}', f'{name}.py', 'Gen')()
    m.load_state_dict(torch.load(f'{name}.pth'))
    return m.eval()


def tup(y):
    return [y] if isinstance(y, torch.Tensor) else list(y)


def prune_and_check(ctx, g, outs, cfg, key, exact=True):
    from tinynn.prune.oneshot_pruner import OneShotChannelPruner
    model = g.build(outs)
    ctx.desc = g.src + str(cfg)
    orig = copy.deepcopy(model)
    xs = [torch.randn(s) for s in g.inputs]
    want0 = tup(model(*xs))
    with ctx.sut(key + '/prune', 'masking'):
        pruner = quietly(OneShotChannelPruner, model, xs if len(xs) > 1 else xs[0], copy.deepcopy(cfg))
        quietly(pruner.register_mask)
        for m in pruner.graph_modifier.modifiers.values():
            m.enable_mask()
    data = [[torch.randn(s) for s in g.inputs] for _ in range(2)]
    with ctx.sut(key + '/masked-run', 'running the masked model'):
        masked = [tup(model(*x)) for x in data]
    with ctx.sut(key + '/apply', 'applying the masks'):
        from tinynn.graph.tracer import ignore_mod_param_update_warning
        with ignore_mod_param_update_warning():
            quietly(pruner.apply_mask)
    try:
        kept = pg.examine(model, orig, g)
    except pg.NothingLeft:
        ctx.skip('a layer lost all its channels')
        return None
    except pg.NotASlice as e:
        ctx.violation(key + '/slice', str(e))
        return None
    for n, p in model.named_parameters():
        if 'mask' in n:
            ctx.violation(key + '/mask-left', f'the mask {n} is still a parameter')
    ctx.count('layers', len(kept))
    gone = sum(g.layers[p].out - len(k[1]) for p, k in kept.items() if g.layers[p].kind in ('conv', 'deconv', 'linear', 'rnn'))
    ctx.count('channels_removed', gone)
    msgs, state = pg.coherent(g, kept)
    if msgs:
        ctx.violation(key + '/coupled', '; '.join(msgs[:4]))
        return None
    runs = []
    if not g.constants:
        with ctx.sut(key + '/run', 'running the pruned model'):
            runs.append(('the pruned model', [tup(model(*x)) for x in data]))
    if g.constants or ctx.rng.random() < 0.3:
        with ctx.sut(key + '/generate', 'generating the pruned model'):
            m2 = load(pruner.graph, 'pruned')
        with ctx.sut(key + '/run-generated', 'running the generated pruned model'):
            runs.append(('the generated pruned model', [tup(m2(*x)) for x in data]))
    pg.mask_consumers(orig, g, kept)
    for what, ys in runs:
        for x, y, mk in zip(data, ys, masked):
            ref = tup(orig(*x))
            if len(y) != len(ref):
                ctx.violation(key + '/interface', f'{what} has {len(y)} outputs instead of {len(ref)}')
                return None
            for k, (a, b, c, o) in enumerate(zip(y, ref, mk, outs)):
                keep = [i for i, ch in enumerate(o.ch) if state.get(g.find(ch), (True,))[0]]
                dim = -1 if o.kind == 'seq' else 1
                b, c = b.index_select(dim, torch.tensor(keep, dtype=torch.long)), c.index_select(dim, torch.tensor(keep, dtype=torch.long))
                if a.shape != b.shape:
                    ctx.violation(key + '/shape', f'{what}: output {k} has shape {tuple(a.shape)} instead of {tuple(b.shape)}')
                    return None
                if g.inexact:
                    continue
                tol = 1e-4 * float(b.detach().abs().max()) + 1e-5
                if float((a - b).abs().max()) > tol:
                    ctx.violation(key + '/function', f'{what}: output {k} differs from the original model without the removed channels by {float((a - b).abs().max())} (magnitude {float(b.abs().max())})')
                    return None
                if float((a - c).abs().max()) > tol:
                    ctx.violation(key + '/masked', f'{what}: output {k} differs from the masked model by {float((a - c).abs().max())} (magnitude {float(c.abs().max())})')
                    return None
            ctx.count('outputs_compared', len(y))
    if gone:
        ctx.ok(g.src + str(cfg), g.src[g.src.find('def forward'):] + str(cfg) + f' removed {gone}')
    else:
        ctx.skip('nothing was removed')
    return kept


def config(r):
    c = {'sparsity': r.choice([0.25, 0.3, 0.5, 0.5, 0.6]), 'metrics': r.choice(METRICS)}
    if r.random() < 0.2:
        c['skip_last_fc'] = False
    return c


@C.family('plain', quick=150, chunk=25)
def _plain(ctx, i):
    r = ctx.rng
    torch.manual_seed(r.randrange(10 ** 6))
    g = pg.Gen(r)
    t = g.input(r.choice([1, 3, 4]), (8, r.choice([6, 8])))
    t = g.conv(g.norm(t) if r.random() < 0.1 else t)
    t = head(g, chain(g, t, r.choice([2, 4, 7])))
    prune_and_check(ctx, g, [t], config(r), 'plain')


@C.family('blocks', quick=300, chunk=25)
def _blocks(ctx, i):
    r = ctx.rng
    torch.manual_seed(r.randrange(10 ** 6))
    g = pg.Gen(r)
    x = g.input(r.choice([1, 3, 4]), (6, 6))
    t = g.conv(x)
    u = body(g, t, r.choice([1, 2, 3, 4]), x)
    outs = [head(g, u)]
    if r.random() < 0.2:
        outs.append(head(g, g.conv(u)))
    prune_and_check(ctx, g, outs, config(r), 'blocks')


@C.family('groups', quick=100, chunk=25)
def _groups(ctx, i):
    r = ctx.rng
    torch.manual_seed(r.randrange(10 ** 6))
    g = pg.Gen(r)
    x = g.input(r.choice([1, 3, 4]), (6, 6))
    t = g.conv(x, out=12)
    gr = r.choice([2, 3, 4])  # the same number of groups throughout: other groups would have to be divided further
    for _ in range(r.choice([1, 2, 3])):
        u = r.random()
        if u < 0.6:
            t = g.conv(t, out=gr * r.choice([2, 3, 4]), groups=gr if t.c % gr == 0 else 1)
        elif u < 0.75:
            a = g.conv(t)
            t = g.binary(a, g.conv(t, out=a.c))
        elif u < 0.85:
            t = g.norm(t)
        else:
            t = g.depthwise(t)
    prune_and_check(ctx, g, [head(g, t)], config(r), 'groups')


@C.family('sequence', quick=120, chunk=25)
def _sequence(ctx, i):
    r = ctx.rng
    torch.manual_seed(r.randrange(10 ** 6))
    g = pg.Gen(r)
    kind = r.choice(['vec', 'seq', 'seq'])
    t = g.input(r.choice([3, 6, 8]), (5, 1), kind)
    t = g.linear(t, out=r.choice([6, 8, 10])) if r.random() < 0.7 or kind == 'vec' else g.rnn(t)
    for _ in range(r.choice([1, 2, 3, 4])):
        u = r.random()
        if u < 0.3:
            t = g.linear(t, out=r.choice([4, 6, 8, 9]))
        elif u < 0.4:
            t = g.act(t)
        elif u < 0.55:
            a = g.linear(t, out=t.c if r.random() < 0.5 else None)
            t = g.binary(a, t if a.c == t.c and r.random() < 0.6 else g.linear(t, out=a.c))
        elif u < 0.65:
            t = g.cat_last([t, g.linear(t)])
        elif u < 0.75 and kind == 'vec':
            t = g.norm(t)
        elif u < 0.8:
            t = g.layernorm(t)
        elif kind == 'seq':
            t = g.rnn(t)
        else:
            t = g.scale(t)
    if r.random() < 0.8:
        t = g.linear(t)
    prune_and_check(ctx, g, [t], config(r), 'sequence')


LIMITS = ['chunk', 'group-counts', 'split-twice']


@C.family('limits', quick=3, chunk=3)
def _limits(ctx, i):
    """Structures that the pruner is known not to handle (known_findings.json)."""
    torch.manual_seed(1000 + i)
    g = pg.Gen(random.Random(i))
    kind = LIMITS[i % 3]
    x = g.input(3, (6, 6))
    if kind == 'chunk':
        t = g.conv(x, out=8, k=1)
        g.new()
        g.fwd.append('a, b = torch.chunk(v1, 2, 1)')
        g.constants = True
        a, b = pg.T('a', t.ch[:4], 'img', t.hw), pg.T('b', t.ch[4:], 'img', t.hw)
        t = g.conv(g.cat([g.conv(a, out=4, k=1), b]), k=1)
        cfg = {'sparsity': 0.3, 'metrics': 'l2_norm'}
    elif kind == 'group-counts':
        t = g.conv(g.conv(g.conv(x, out=12, k=1), out=12, groups=4, k=1), out=6, groups=3, k=1)
        cfg = {'sparsity': 0.25, 'metrics': 'l2_norm'}
    else:
        t = g.conv(x, out=6, k=1)
        g.new()
        g.fwd.append('a, b = torch.split(v1, 3, 1)')
        g.constants = True
        a, b = pg.T('a', t.ch[:3], 'img', t.hw), pg.T('b', t.ch[3:], 'img', t.hw)
        t = g.binary(a, b)
        t = g.depthwise(t)
        cfg = {'sparsity': 0.5, 'metrics': 'l2_norm'}
        prune_and_check(ctx, g, [g.linear(g.flatten(t)), g.conv(t, k=1)], cfg, f'limits/{kind}')
        return
    prune_and_check(ctx, g, [t], cfg, f'limits/{kind}')


if __name__ == '__main__':
    sys.exit(C.main())
