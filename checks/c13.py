"""C13: a pruner removes the configured share of the least important channels, and nothing of layers that are left out."""
import copy
import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402
from vlib import prunegen as pg  # noqa: E402
from checks.c12 import body, chain, head, quietly  # noqa: E402

import torch  # noqa: E402
import torch.nn as nn  # noqa: E402

C = core.Check(
    'C13',
    rule='random networks and configurations (ratios per layer, metrics, excluded layers, operators and classifiers); the channels that were removed are recovered '
         'from the weights and compared, per set of coupled layers, with the number and the importances computed independently; distinct by network and configuration',
    assumptions=['ratios that leave at least one channel', 'one ratio for layers that are coupled'],
)


def norms(metric, m):
    """Importance of every output channel."""
    w = m.weight.detach().double()
    if isinstance(m, nn.ConvTranspose2d):
        w = w.transpose(0, 1)
    w = w.reshape(w.shape[0], -1)
    if metric == 'l1_norm':
        return w.abs().sum(1)
    if metric == 'l2_norm':
        return (w * w).sum(1).sqrt()
    return torch.stack([((w - v) ** 2).sum(1).sqrt().sum() for v in w])


def rnn_norms(metric, m, l):
    """Importance of every hidden unit: all the weights of the unit in all gates, layers and directions."""
    out = []
    for sfx in [''] + (['_reverse'] if l.bi else []):
        tot = torch.zeros(l.h, dtype=torch.double)
        for k in range(l.nl):
            for which in ('ih', 'hh'):
                w = getattr(m, f'weight_{which}_l{k}{sfx}').detach().double().reshape(l.gates, l.h, -1)
                tot += (w.abs().sum(2) if metric == 'l1_norm' else (w * w).sum(2).sqrt()).sum(0)
        out.append(tot)
    return torch.cat(out)


def count_for(n, s):
    """The smallest number of channels that reaches the ratio."""
    k = 0
    while k / n < s:
        k += 1
    return k


def components(g):
    """Sets of layers with coupled channels: [(layers, {class: [(layer, channel)]})]."""
    classes = {}
    for p, l in g.layers.items():
        if l.kind in ('conv', 'deconv', 'linear', 'rnn'):
            for i in range(l.out):
                classes.setdefault(g.find((p, i)), []).append((p, i))
    comp = {}

    def top(a):
        while comp.setdefault(a, a) != a:
            a = comp[a]
        return a

    for ms in classes.values():
        for p, _ in ms:
            comp[top(p)] = top(ms[0][0])
    out = {}
    for a, ms in classes.items():
        c = top(ms[0][0])
        out.setdefault(c, {})[a] = ms
    return [(sorted({p for ms in cl.values() for p, _ in ms}), cl) for cl in out.values()]


def fixed(g, cl):
    return any(a == g.find(pg.FIXED) for a in cl)


def used_alone(g, layers, outs):
    """Whether the channels of the layers go nowhere but through element-wise operations and whole consumers."""
    own = {g.find((p, i)) for p in layers for i in range(g.layers[p].out)}
    for fan_in in [l.fan_in for l in g.layers.values()] + [o.ch for o in outs]:
        ch = [g.find(c) for c in fan_in]
        s = set(ch)
        if s & own and not s <= own:
            return False
        if s & own and len(ch) % len(s):
            return False
    return True


def run(ctx, g, outs, cfg, key):
    from tinynn.prune.oneshot_pruner import OneShotChannelPruner
    model = g.build(outs)
    ctx.desc = g.src + str(cfg)
    orig = copy.deepcopy(model)
    xs = [torch.randn(s) for s in g.inputs]
    with ctx.sut(key + '/prune', 'pruning'):
        pruner = quietly(OneShotChannelPruner, model, xs if len(xs) > 1 else xs[0], copy.deepcopy(cfg))
        quietly(pruner.prune)
    try:
        return orig, pg.examine(model, orig, g)
    except pg.NothingLeft:
        ctx.skip('a layer lost all its channels')
        return None


def check(ctx, g, outs, cfg, orig, kept, ratio, key, last_fc):
    """ratio: {layer: ratio}"""
    ok = 0
    for layers, cl in components(g):
        s = {ratio[p] for p in layers}
        removed = {a: not any(i in set(kept[p][1]) for p, i in ms) for a, ms in cl.items()}
        if last_fc in layers and cfg.get('skip_last_fc', True):
            if any(removed.values()):
                ctx.violation(key + '/last-fc', f'the last linear layer {last_fc} lost {sum(removed.values())} outputs')
                return 0
            ctx.count('layers_left_alone')
            ok += 1
            continue
        if fixed(g, cl):
            if any(removed.values()):
                ctx.violation(key + '/input', f'channels of {layers} coupled to the input were removed')
                return 0
            continue
        if len(s) > 1:
            continue
        s = s.pop()
        if s == 0.0:
            if any(removed.values()):
                ctx.violation(key + '/excluded', f'{sum(removed.values())} channels of {layers} were removed although their ratio is 0')
                return 0
            ctx.count('layers_left_alone', len(layers))
            ok += 1
            continue
        sizes = {len(ms) for ms in cl.values()}
        n = len(cl)
        k = sum(removed.values())
        groups = max([g.layers[p].groups for p in layers] + [l.groups for l in g.layers.values() if l.groups > 1 and any(g.find(c) in cl for c in l.fan_in)]
                     + [2 if g.layers[p].kind == 'rnn' and g.layers[p].bi else 1 for p in layers])
        simple = len(sizes) == 1 and all(len({p for p, _ in ms}) == len(ms) == len(layers) for ms in cl.values()) and used_alone(g, layers, outs)
        if not simple:
            if len(sizes) == 1 and abs(k - s * n) > len(layers) * groups + 1:
                ctx.violation(key + '/share', f'{k} of {n} coupled channels of {layers} were removed for the ratio {s}')
                return 0
            ctx.count('coupled_sets_approximate')
            continue
        imp = None
        if cfg['metrics'] != 'random':
            tot = {p: rnn_norms(cfg['metrics'], orig.get_submodule(p), g.layers[p]) if g.layers[p].kind == 'rnn' else norms(cfg['metrics'], orig.get_submodule(p)) for p in layers}
            imp = {a: float(sum(tot[p][i] for p, i in ms)) for a, ms in cl.items()}
        first = layers[0]
        byindex = sorted(cl, key=lambda a: [i for p, i in cl[a] if p == first][0])
        if n % groups:
            continue
        step = n // groups
        for j in range(groups):
            part = byindex[j * step:(j + 1) * step]
            k = sum(removed[a] for a in part)
            want = count_for(step, s)
            if k != want:
                ctx.violation(key + '/share', f'{k} of {step} channels of {layers} (group {j} of {groups}) were removed for the ratio {s} instead of {want}')
                return 0
            if imp is not None:
                gone = [imp[a] for a in part if removed[a]]
                left = [imp[a] for a in part if not removed[a]]
                if gone and left and max(gone) > min(left) * (1 + 1e-5):
                    ctx.violation(key + '/least-important', f'{layers}: a channel of importance {max(gone)} was removed while one of importance {min(left)} was kept')
                    return 0
                ctx.count('importance_orders_checked')
        ctx.count('coupled_sets_checked')
        ctx.count(f'coupled_layers_{min(len(layers), 4)}')
        ok += 1
    return ok


def last_center(g):
    cs = [p for p, l in g.layers.items() if l.kind in ('conv', 'deconv', 'linear', 'rnn')]
    return cs[-1] if g.layers[cs[-1]].kind == 'linear' else None


def ratios(g, r, default, outs):
    """A ratio for every set of layers whose channels meet somewhere; some are left alone."""
    comp = {p: p for p in g.layers}

    def top(a):
        while comp[a] != a:
            a = comp[a]
        return a

    sets = components(g)
    owner = {}
    for layers, cl in sets:
        for p in layers:
            comp[top(p)] = top(layers[0])
        for a in cl:
            owner[a] = layers[0]
    held = set()
    for fan_in in [l.fan_in for l in g.layers.values()] + [o.ch for o in outs]:
        ps = [owner[g.find(c)] for c in fan_in if g.find(c) in owner]
        if any(g.find(c) == g.find(pg.FIXED) for c in fan_in):
            held.update(ps)
        for p in ps:
            comp[top(p)] = top(ps[0])
    held = {top(p) for p in held}
    choice = {p: default if p in held else r.choice([default, default, 0.0, 0.25, 0.4, 0.5, 0.7]) for p in g.layers if top(p) == p}
    return {p: choice[top(p)] for layers, _ in sets for p in layers}


def case(ctx, g, outs, key, metrics=('l1_norm', 'l2_norm', 'l1_norm', 'l2_norm', 'random')):
    r = ctx.rng
    default = r.choice([0.2, 0.25, 0.3, 0.5, 0.5, 0.6, 1 / 3])
    cfg = {'sparsity': default, 'metrics': r.choice(metrics)}
    if r.random() < 0.3:
        cfg['skip_last_fc'] = r.random() < 0.5
    if r.random() < 0.6:
        ratio = ratios(g, r, default, outs)
        cfg['sparsity'] = {**{p: s for p, s in ratio.items() if s != default}, 'default': default}
        last = last_center(g)
        if last in ratio and ratio[last] != default:
            cfg['skip_last_fc'] = False if r.random() < 0.5 else True
    else:
        ratio = {p: default for p in g.layers}
    last = last_center(g)
    if last in ratio and ratio[last] != default:
        last = None  # an explicit ratio counts
    excluded = None
    if r.random() < 0.2:
        # layers whose channels pass an excluded operator are left alone
        excluded = r.choice([nn.BatchNorm2d, nn.PReLU, nn.ReLU])
        cfg['exclude_ops'] = [excluded]
    res = run(ctx, g, outs, cfg, key)
    if res is None:
        return
    orig, kept = res
    if excluded is not None:
        for p, l in g.layers.items():
            if type(orig.get_submodule(p)) is excluded and len(kept.get(p, ((), l.fan_in))[1]) != len(l.fan_in):
                ctx.violation(key + '/excluded-op', f'channels of {p} were removed although {excluded.__name__} is excluded')
                return
        ctx.count('excluded_operators')
        ctx.ok(g.src + str(cfg), str(cfg))
        return
    n = check(ctx, g, outs, cfg, orig, kept, ratio, key, last)
    if n:
        ctx.ok(g.src + str(cfg), g.src[g.src.find('def forward'):] + str(cfg))
    elif not ctx.violations:
        ctx.skip('no set of coupled layers with a definite count')


@C.family('plain', quick=200, chunk=25)
def _plain(ctx, i):
    r = ctx.rng
    torch.manual_seed(r.randrange(10 ** 6))
    g = pg.Gen(r)
    t = g.conv(g.input(r.choice([1, 3, 4]), (8, 6)))
    t = head(g, chain(g, t, r.choice([2, 4, 6])))
    case(ctx, g, [t], 'plain')


@C.family('blocks', quick=200, chunk=25)
def _blocks(ctx, i):
    r = ctx.rng
    torch.manual_seed(r.randrange(10 ** 6))
    g = pg.Gen(r)
    x = g.input(r.choice([1, 3, 4]), (6, 6))
    t = body(g, g.conv(x), r.choice([1, 2, 3, 4]), x)
    case(ctx, g, [head(g, t)], 'blocks')


@C.family('coupled', quick=150, chunk=25)
def _coupled(ctx, i):
    """Several layers that are added together."""
    r = ctx.rng
    torch.manual_seed(r.randrange(10 ** 6))
    g = pg.Gen(r)
    t = g.conv(g.input(3, (6, 6)))
    for _ in range(r.choice([1, 2])):
        c = r.choice([4, 6, 7, 9, 10])
        parts = [g.conv(t, out=c, k=1)]
        for _ in range(r.choice([1, 2, 3])):
            parts.append(g.conv(r.choice([t, parts[-1]]) if r.random() < 0.7 else t, out=c))
        if r.random() < 0.3:
            parts[0] = g.norm(parts[0])
        s = parts[0]
        for q in parts[1:]:
            s = g.binary(s, q) if r.random() < 0.5 else g.binary(q, s)
        t = g.conv(g.act(s) if r.random() < 0.5 else s)
    case(ctx, g, [head(g, t)], 'coupled')


@C.family('groups', quick=80, chunk=20)
def _groups(ctx, i):
    r = ctx.rng
    torch.manual_seed(r.randrange(10 ** 6))
    g = pg.Gen(r)
    t = g.conv(g.input(3, (5, 5)), out=12)
    gr = r.choice([2, 3, 4])
    for _ in range(r.choice([1, 2])):
        t = g.conv(t, out=gr * r.choice([2, 3, 4]), groups=gr if t.c % gr == 0 else 1)
    case(ctx, g, [head(g, g.conv(t))], 'groups')


@C.family('sequence', quick=80, chunk=20)
def _sequence(ctx, i):
    r = ctx.rng
    torch.manual_seed(r.randrange(10 ** 6))
    g = pg.Gen(r)
    t = g.input(r.choice([3, 6]), (5, 1), 'seq')
    for _ in range(r.choice([1, 2, 3])):
        t = g.rnn(t) if r.random() < 0.5 else g.linear(t)
        if r.random() < 0.3:
            t = g.act(t)
    case(ctx, g, [g.linear(t)], 'sequence')


@C.family('fpgm', quick=50, chunk=25)
def _fpgm(ctx, i):
    r = ctx.rng
    torch.manual_seed(r.randrange(10 ** 6))
    g = pg.Gen(r)
    t = g.conv(g.input(3, (6, 6)))
    for _ in range(r.choice([1, 2, 3])):
        t = g.conv(g.act(t) if r.random() < 0.5 else t)
    case(ctx, g, [g.linear(g.squeeze_mean(t)) if r.random() < 0.5 else t], 'fpgm', metrics=('fpgm',))


if __name__ == '__main__':
    sys.exit(C.main())
