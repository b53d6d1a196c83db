"""C14: configurations, masks and operation counts of the pruners are faithful."""
import copy
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402
from vlib import prunegen as pg  # noqa: E402
from checks.c12 import METRICS, body, chain, head, quietly, tup  # noqa: E402

import torch  # noqa: E402
import torch.nn as nn  # noqa: E402

C = core.Check(
    'C14',
    rule='random prunable networks; configurations written and read back drive the same pruning and stay untouched, invalid ones are refused, masks are watched '
         'in every forward call of random training and masking histories, operation counts are recomputed by hooks on the running model; distinct by network, '
         'configuration and history',
    assumptions=['operation counts: multiply-accumulates plus bias additions of convolutions, multiplications of linear layers, two operations per normalised '
                 'and one per rectified or pooled element'],
)


def network(r, seed=None):
    g = pg.Gen(r)
    x = g.input(r.choice([1, 3, 4]), (6, 6))
    t = g.conv(x)
    t = chain(g, t, r.choice([1, 3])) if r.random() < 0.4 else body(g, t, r.choice([1, 2, 3]), x)
    return g, [head(g, t)]


def config(r, metrics=('l1_norm', 'l2_norm')):
    c = {'sparsity': r.choice([0.25, 0.3, 0.5]), 'metrics': r.choice(metrics)}
    if r.random() < 0.3:
        c['skip_last_fc'] = r.random() < 0.5
    if r.random() < 0.2:
        c['multiple'] = r.choice([2, 4])
    if r.random() < 0.2:
        c['bn_compensation'] = r.random() < 0.5
    if r.random() < 0.25:
        c['exclude_ops'] = r.sample(['cat', 'add', 'sigmoid', 'split'], r.choice([1, 2]))
    return c


def dummy(g):
    xs = [torch.randn(s) for s in g.inputs]
    return xs if len(xs) > 1 else xs[0]


def same_models(a, b):
    sa, sb = a.state_dict(), b.state_dict()
    if list(sa) != list(sb):
        return f'entries differ: {sorted(set(sa) ^ set(sb))[:4]}'
    for k in sa:
        if sa[k].shape != sb[k].shape or not torch.equal(sa[k], sb[k]):
            return f'{k}: {tuple(sa[k].shape)} and {tuple(sb[k].shape)}' + ('' if sa[k].shape != sb[k].shape else ', other values')
    return None


def plain(v):
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, float):
        return float(v)
    return v


@C.family('config', quick=160, chunk=20)
def _config(ctx, i):
    from tinynn.prune.oneshot_pruner import OneShotChannelPruner as P
    r = ctx.rng
    torch.manual_seed(r.randrange(10 ** 6))
    g, outs = network(r)
    cfg = config(r)
    if r.random() < 0.4:  # ratios per layer, one value for coupled layers
        names = [n for n, l in g.layers.items() if l.kind in ('conv', 'deconv', 'linear') and l.groups == 1]
        cfg['sparsity'] = {'default': cfg['sparsity']}
        val = r.choice([0.25, 0.5])
        if r.random() < 0.5:
            cfg['sparsity'].update({n: val for n in names})
    model = g.build(outs)
    ctx.desc = g.src + str(cfg)
    copies = [copy.deepcopy(model) for _ in range(4)]
    x = dummy(g)
    given = copy.deepcopy(cfg)
    key = 'config'
    with ctx.sut(key + '/construct', 'creating the pruner'):
        p = quietly(P, model, x, cfg)
    with ctx.sut(key + '/generate', 'writing the configuration'):
        p.generate_config('before.yml')
    with ctx.sut(key + '/prune', 'pruning'):
        quietly(p.prune)
        p.generate_config('after.yml')
    if cfg != given or any(type(cfg[k]) is not type(given[k]) for k in given):
        ctx.violation(key + '/user-config', f'the configuration given by the user is changed to {cfg}')
    a, b = plain(P.load_config('before.yml')), plain(P.load_config('after.yml'))
    if a != b:
        ctx.violation(key + '/written', f'the configuration written after pruning differs: {a} {b}')
    for k, v in given.items():
        if k != 'sparsity' and a.get(k) != plain(v):
            ctx.violation(key + '/value', f'{k} is {v} but the written configuration has {a.get(k)}')
    sp = given['sparsity'] if isinstance(given['sparsity'], dict) else {'default': given['sparsity']}
    for k, v in sp.items():
        if a['sparsity'].get(k) != v:
            ctx.violation(key + '/ratio', f'the ratio of {k} is {v} but the written configuration has {a["sparsity"].get(k)}')
    want = {n for n, l in g.layers.items() if l.kind in ('conv', 'deconv', 'linear') and not isinstance(pg._get(copies[0], n), nn.BatchNorm2d)
            and not (l.kind != 'linear' and l.groups > 1 and l.groups == l.out)}
    if not want <= set(a['sparsity']):
        ctx.violation(key + '/layers', f'the written configuration has no ratios for {sorted(want - set(a["sparsity"]))}')
    ways = {'mapping': copy.deepcopy(given), 'file': 'before.yml', 'loaded': P.load_config('after.yml'), 'again': cfg}
    for (how, c), m in zip(ways.items(), copies):
        with ctx.sut(key + '/' + how, f'pruning with the configuration as {how}'):
            q = quietly(P, m, x, c)
            quietly(q.prune)
        d = same_models(model, m)
        if d:
            ctx.violation(key + '/' + how, f'pruning with the configuration given as {how} gives another model: {d}')
    ctx.ok(g.src + str(given), g.src[g.src.find('def forward'):] + str(given))


BASE = {'sparsity': 0.5, 'metrics': 'l2_norm'}


def bad_configs():
    yield 'no-sparsity', {'metrics': 'l2_norm'}
    yield 'no-metrics', {'sparsity': 0.5}
    yield 'nothing', {}
    for n, v in [('str', '0.5'), ('list', [0.5]), ('none', None), ('tuple', (0.5,)), ('bool', True)]:
        yield f'sparsity-{n}', dict(BASE, sparsity=v)
    yield 'no-default', dict(BASE, sparsity={'l1': 0.5})
    yield 'empty-ratios', dict(BASE, sparsity={})
    for n, v in [('unknown', 'l3_norm'), ('empty', ''), ('list', ['l2_norm']), ('none', None), ('number', 2), ('callable', abs), ('other-name', 'is_dw_conv'),
                 ('module-name', 'torch'), ('class-name', 'Modifier')]:
        yield f'metrics-{n}', dict(BASE, metrics=v)
    for n, v in [('str', 'no'), ('none', None), ('list', [])]:
        yield f'skip_last_fc-{n}', dict(BASE, skip_last_fc=v)
        yield f'bn_compensation-{n}', dict(BASE, bn_compensation=v)
    for n, v in [('str', 'add'), ('none', None), ('dict', {'add': 1}), ('bool', True)]:
        yield f'exclude_ops-{n}', dict(BASE, exclude_ops=v)
    for n, v in [('str', '4'), ('float', 2.0), ('list', [2])]:
        yield f'multiple-{n}', dict(BASE, multiple=v)
    for n, v in [('list', [('sparsity', 0.5), ('metrics', 'l2_norm')]), ('none', None), ('number', 0.5), ('no-such-file', '/nonexistent/config.yml')]:
        yield f'config-{n}', v


@C.family('reject', quick=2, thorough=6, chunk=2)
def _reject(ctx, i):
    """Settings that must be refused before the model is touched."""
    from tinynn.prune.oneshot_pruner import OneShotChannelPruner as P
    r = ctx.rng
    for name, cfg in bad_configs():
        m = nn.Sequential(nn.Conv2d(3, 8, 3), nn.ReLU(), nn.Conv2d(8, 4, 1))
        before = copy.deepcopy(m.state_dict())
        ctx.desc = f'{name}: {cfg}'
        if i % 2 and isinstance(cfg, dict) and name not in ('metrics-callable', 'sparsity-tuple'):
            from ruamel.yaml import YAML
            with open('bad.yml', 'w') as f:
                YAML(typ='rt').dump(cfg, f)
            cfg = 'bad.yml'
        try:
            p = quietly(P, m, torch.randn(1, 3, 8, 8), cfg)
            stage = 'pruning'
            quietly(p.prune)
        except Exception as e:
            if list(before) != [k for k in m.state_dict() if 'mask' not in k] or any(before[k].shape != m.state_dict()[k].shape for k in before):
                ctx.violation(f'reject/{name}/touched', f'{ctx.desc} was refused but the model is changed')
            ctx.ok(f'{name}/{i % 2}', f'{name} refused: {type(e).__name__}')
            continue
        ctx.violation(f'reject/{name}/accepted', f'{ctx.desc} was accepted ({stage})')


def count_ops(model, xs, skip=()):
    """Operations of the leaf modules, in execution order."""
    total, hooks = [0, 0], []

    def hook(m, inp, out):
        x = inp[0]
        if type(m) in (nn.Conv2d, nn.ConvTranspose2d):
            per_out = m.weight.numel() // (m.weight.shape[0] if type(m) is nn.Conv2d else m.weight.shape[1] * m.groups)
            if type(m) is nn.ConvTranspose2d:
                per_out = m.weight.shape[0] // m.groups * m.weight[0, 0].numel()
            total[0] += out.numel() * (per_out + (m.bias is not None))
        elif type(m) is nn.Linear:
            total[0] += out.numel() * m.weight.shape[1]
        elif type(m) is nn.BatchNorm2d:
            total[0] += 2 * x.numel()
        elif type(m) in (nn.ReLU, nn.AvgPool2d, nn.AdaptiveAvgPool2d):
            total[1] += x.numel()  # activations and pools, apart
    for m in model.modules():
        if not list(m.children()):
            hooks.append(m.register_forward_hook(hook))
    try:
        with torch.no_grad():
            model(*xs)
    finally:
        for h in hooks:
            h.remove()
    return total


def nothing_left(ctx, model):
    if any(0 in q.shape for q in model.parameters()):
        ctx.skip('a layer lost all its channels')


def watch(ctx, p, key):
    """Monitors every forward call: while the mask of a layer is enabled, its masked entries are zero."""
    hooks, seen = [], [0]

    def hook(m, inp, out):
        mk = getattr(m, 'masker', None)
        if mk is None or not mk.enabled:
            return
        for n, mask in mk.masks.items():
            t = getattr(m, n)
            seen[0] += 1
            if t.shape != mask.shape:
                ctx.violation(key + '/mask-shape', f'{mk.unique_name}.{n} has shape {tuple(t.shape)}, its mask {tuple(mask.shape)}')
            elif bool((t.detach()[mask == 0] != 0).any()):
                ctx.violation(key + '/mask-zero', f'{mk.unique_name}.{n} has non-zero values where the mask is zero')
    for m in {id(x.module()): x.module() for x in p.graph_modifier.modifiers.values()}.values():
        if isinstance(m, nn.Module):
            hooks.append(m.register_forward_hook(hook))
    return hooks, seen


@C.family('history', quick=160, chunk=20)
def _history(ctx, i):
    from tinynn.prune.oneshot_pruner import OneShotChannelPruner as P
    from tinynn.graph.tracer import ignore_mod_param_update_warning
    r = ctx.rng
    torch.manual_seed(r.randrange(10 ** 6))
    g, outs = network(r)
    if g.constants:
        ctx.skip('sizes in the code')
    cfg = config(r, METRICS)
    cfg.pop('bn_compensation', None)
    cfg.pop('exclude_ops', None)
    model = g.build(outs)
    ctx.desc = g.src + str(cfg)
    key = 'history'
    x = dummy(g)
    xs = x if isinstance(x, list) else [x]
    steps = []
    with ctx.sut(key + '/construct', 'creating the pruner'):
        p = quietly(P, model, x, cfg)

    def flops(when):
        with ctx.sut(key + '/flops', f'counting operations {when}'):
            n = quietly(p.calc_flops)
        ctx.count('operation_counts')
        return n

    full_w, full_a = count_ops(model, xs)
    full = full_w + full_a
    n = flops('before pruning')
    if n != full:
        ctx.violation(key + '/flops-before', f'{n} operations instead of {full}')
    shapes = {k: v.shape for k, v in model.named_parameters()}
    with ctx.sut(key + '/register', 'registering masks'):
        quietly(p.register_mask)
    hooks, seen = watch(ctx, p, key)
    mods = list(p.graph_modifier.modifiers.values())
    masks = {(m.unique_name(), n): v.detach().clone() for m in mods if isinstance(m.module(), nn.Module) for n, v in m.masker().masks.items()}
    opt, on = None, False
    masked_flops = None
    for _ in range(r.choice([3, 5, 8])):
        u = r.random()
        if u < 0.25:
            on = True
            steps.append('enable')
            with ctx.sut(key + '/enable', 'enabling masks'):
                for m in mods:
                    m.enable_mask()
        elif u < 0.35:
            on = False
            steps.append('disable')
            for m in mods:
                m.disable_mask()
        elif u < 0.45:
            steps.append('count')
            masked_flops = flops('with masks')
        elif u < 0.55:
            steps.append('write')
            with ctx.sut(key + '/write', 'writing the configuration'):
                p.generate_config('h.yml')
        else:
            if opt is None or r.random() < 0.3:
                ps = [q for q in model.parameters() if q.requires_grad] if r.random() < 0.5 else model.parameters()
                opt = r.choice([lambda q: torch.optim.SGD(q, 0.05, momentum=0.9, weight_decay=0.01), lambda q: torch.optim.Adam(q, 0.01),
                                lambda q: torch.optim.SGD(q, 0.1), lambda q: torch.optim.AdamW(q, 0.01)])(ps)
            model.train()
            for _ in range(r.choice([1, 2, 3])):
                opt.zero_grad()
                before = {k: v.detach().clone() for k, v in model.named_parameters()} if not on else None
                bx = [torch.randn(*q.shape) for q in xs]
                if bx[0].shape[0] * 1 == 1 and any(isinstance(m, nn.BatchNorm1d) for m in model.modules()):
                    model.eval()
                with ctx.sut(key + '/train', f'a training step after {steps}'):
                    y = tup(model(*bx))
                    sum((torch.tanh(q / 10)).mean() for q in y).backward()
                torch.nn.utils.clip_grad_norm_([q for q in model.parameters() if q.grad is not None], 1.0)
                if before is not None and any(not torch.equal(before[k], v) for k, v in model.named_parameters()):
                    ctx.violation(key + '/disabled', f'a forward call with disabled masks changes parameters ({steps})')
                opt.step()
            steps.append('train')
            model.eval()
        cur = {k: v.shape for k, v in model.named_parameters() if not k.endswith('_mask')}
        if cur != {k: v for k, v in shapes.items()}:
            ctx.violation(key + '/shapes', f'shapes changed before the masks were applied ({steps})')
    ctx.desc += str(steps)
    for m in mods:
        if isinstance(m.module(), nn.Module):
            for n, v in m.masker().masks.items():
                if not torch.equal(masks.get((m.unique_name(), n), torch.zeros(0)), v):
                    ctx.violation(key + '/mask-changed', f'the mask of {m.unique_name()}.{n} was changed by {steps}')
    with ctx.sut(key + '/enable', 'enabling masks'):
        for m in mods:
            m.enable_mask()
    with ctx.sut(key + '/masked-run', 'running the masked model'), torch.no_grad():
        data = [torch.randn(*q.shape) for q in xs]
        ref = tup(model.eval()(*data))
    if masked_flops is None:
        masked_flops = flops('with masks')
    with ctx.sut(key + '/apply', f'applying masks after {steps}'), ignore_mod_param_update_warning():
        quietly(p.apply_mask)
    for h in hooks:
        h.remove()
    nothing_left(ctx, model)
    for n, q in list(model.named_parameters()) + list(model.named_buffers()):
        if n.endswith('_mask'):
            ctx.violation(key + '/mask-left', f'{n} is left over')
    with ctx.sut(key + '/run', 'running the pruned model'), torch.no_grad():
        got = tup(model(*data))
    if not g.inexact:
        for k, (a, b, o) in enumerate(zip(got, ref, outs)):
            if a.shape == b.shape and not torch.allclose(a, b, rtol=1e-3, atol=1e-4 * float(b.abs().max()) + 1e-5):
                ctx.violation(key + '/function', f'after {steps} output {k} of the pruned model differs from the masked model by {float((a - b).abs().max())}')
    real_w, real_a = count_ops(model, xs)
    real = real_w + real_a
    n = flops('after pruning')
    if n != real:
        ctx.violation(key + '/flops-after', f'{n} operations instead of {real} after pruning')
    # with masks registered, activations between the layers are counted in full or in part
    if not real <= masked_flops <= real_w + full_a:
        ctx.violation(key + '/flops-masked', f'{masked_flops} operations reported for the masked model, {real} after pruning (full model {full})')
    if r.random() < 0.5 and 'chunk' not in g.src and 'shape[1]' not in g.src:  # once more
        orig = copy.deepcopy(model)
        with ctx.sut(key + '/reset', 'pruning again after reset()'):
            quietly(p.reset)
            quietly(p.prune)
        nothing_left(ctx, model)
        with ctx.sut(key + '/run-again', 'running the model pruned twice'), torch.no_grad():
            model(*data)
        real, n = sum(count_ops(model, xs)), flops('after pruning again')
        if n != real:
            ctx.violation(key + '/flops-again', f'{n} operations instead of {real} after pruning again')
        fresh = copy.deepcopy(orig)
        if cfg['metrics'] != 'random':
            with ctx.sut(key + '/fresh', 'pruning with a fresh pruner'):
                c2 = {k: v for k, v in cfg.items()}
                quietly(quietly(P, fresh, x, c2).prune)
            d = same_models(model, fresh)
            if d:
                ctx.violation(key + '/again', f'pruning again after reset() differs from pruning with a new pruner: {d}')
    ctx.count('masked_tensors_seen', seen[0])
    ctx.ok(g.src + str(cfg) + str(steps), g.src[g.src.find('def forward'):] + str(cfg) + str(steps))


@C.family('identity', quick=80, chunk=20)
def _identity(ctx, i):
    from tinynn.prune.identity_pruner import IdentityChannelPruner as P
    r = ctx.rng
    torch.manual_seed(r.randrange(10 ** 6))
    if r.random() < 0.5:
        g, outs = network(r)
        model = g.build(outs)
        src, x = g.src, dummy(g)
        dead = False
    else:
        act = r.choice(['nn.ReLU()', 'nn.ReLU6()', 'nn.LeakyReLU(0.1)', 'nn.Sigmoid()', 'nn.Hardswish()', 'nn.Tanh()', 'nn.Hardtanh()'])
        if r.random() < 0.3:  # a function
            act = r.choice(['F.relu', 'F.relu6', 'torch.sigmoid', 'torch.tanh', 'F.leaky_relu', 'F.hardswish'])
        c = r.choice([4, 6, 8])
        n = r.choice([1, 2])
        body_ = []
        cur = 3
        for _ in range(n):
            body_ += [f'nn.Conv2d({cur}, {c}, {r.choice([1, 3])}, bias={r.random() < 0.5})', f'nn.BatchNorm2d({c})', act]
            cur = c
        body_ += [f'nn.Conv2d({c}, 5, {r.choice([1, 3])}, bias={r.random() < 0.5})']
        src = 'nn.Sequential(' + ', '.join(body_) + ')'
        parts = [b for b in body_ if b != act]
        if act.startswith('nn.'):
            model = eval(src)
            parts = model
        else:
            calls, k = 'x', 0
            for b in body_:
                calls = f'{act}({calls})' if b == act else f'self.m[{k}]({calls})'
                k += b != act
            ns = {}
            src = f'class M(nn.Module):\n    def __init__(self):\n        super().__init__()\n        self.m = nn.ModuleList([{", ".join(parts)}])\n    def forward(self, x):\n        return {calls}\n'
            exec('import torch\nimport torch.nn as nn\nimport torch.nn.functional as F\n' + src, ns)
            model = ns['M']()
            parts = model.m
        x = torch.randn(1, 3, 10, 10)
        dead = True
        for k, m in enumerate(parts):
            if isinstance(m, nn.BatchNorm2d):
                m.weight.data.normal_().add_(1)
                m.bias.data.normal_()
                m.running_mean.normal_()
                m.running_var.uniform_(0.5, 2)
                for ch in r.sample(range(c), r.choice([0, 1, 2])):
                    parts[k - 1].weight.data[ch] = 0
                    m.running_var[ch] = 0
                    m.running_mean[ch] = parts[k - 1].bias[ch] if parts[k - 1].bias is not None else 0.0
        src += ' ' + str([m.running_var.tolist() for m in model.modules() if isinstance(m, nn.BatchNorm2d)])
    cfg = r.choice([None, {}, {'multiple': 2}, {'multiple': 1}, {'metrics': 'l1_norm'}])
    given = copy.deepcopy(cfg)
    ctx.desc = src + str(cfg)
    xs = x if isinstance(x, list) else [x]
    model.eval()
    data = [torch.randn(*q.shape) for q in xs]
    with torch.no_grad():
        ref = tup(model(*data))
        n0 = sum(p.numel() for p in model.parameters())
    with ctx.sut('identity/prune', 'the identity pruner'):
        p = quietly(P, model, x, cfg)
        quietly(p.prune)
    if cfg != given:
        ctx.violation('identity/user-config', f'the configuration given by the user is changed to {cfg}')
    with ctx.sut('identity/run', 'running the model'), torch.no_grad():
        got = tup(model(*data))
    for k, (a, b) in enumerate(zip(got, ref)):
        if a.shape != b.shape or not torch.allclose(a, b, rtol=1e-3, atol=1e-4 * float(b.abs().max()) + 1e-5):
            ctx.violation('identity/function', f'output {k} changes by {float((a - b).abs().max()) if a.shape == b.shape else a.shape}')
    gone = n0 - sum(p.numel() for p in model.parameters())
    ctx.count('parameters_removed', gone)
    ctx.ok(ctx.desc, ctx.desc + f' removed {gone}')


class TwoWays(nn.Module):
    def __init__(self):
        super().__init__()
        self.c, self.b, self.p, self.q = nn.Conv2d(3, 6, 1), nn.BatchNorm2d(6), nn.Conv2d(6, 4, 1), nn.Conv2d(6, 4, 1)

    def forward(self, x):
        y = self.b(self.c(x))
        return self.p(torch.relu(y)) + self.q(y)


LIMITS = {
    'padding': lambda: nn.Sequential(nn.Conv2d(3, 6, 1), nn.BatchNorm2d(6), nn.ReLU(), nn.Conv2d(6, 4, 3, padding=1)),
    'no-activation': lambda: nn.Sequential(nn.Conv2d(3, 6, 1), nn.BatchNorm2d(6), nn.Conv2d(6, 4, 1)),
    'two-consumers': TwoWays,
}


@C.family('limits', quick=3, thorough=3, chunk=3)
def _limits(ctx, i):
    """Structures whose constant channels the identity pruner is known to drop without compensation (known_findings.json)."""
    from tinynn.prune.identity_pruner import IdentityChannelPruner as P
    name = list(LIMITS)[i % len(LIMITS)]
    torch.manual_seed(5 + i)
    m = LIMITS[name]().eval()
    ctx.desc = name
    conv, bn = [x for x in m.modules() if isinstance(x, (nn.Conv2d, nn.BatchNorm2d))][:2]
    conv.weight.data[2] = 0
    bn.running_mean[2] = conv.bias.data[2]
    bn.running_var[2] = 0
    bn.bias.data.fill_(0.7)
    x = torch.randn(1, 3, 8, 8)
    ref = m(x)
    with ctx.sut(f'identity/{name}', 'the identity pruner'):
        quietly(quietly(P, m, x, None).prune)
        got = m(x)
    if not torch.allclose(got, ref, rtol=1e-3, atol=1e-4):
        ctx.violation(f'identity/{name}/function', f'the output changes by {float((got - ref).abs().max())}')
    else:
        ctx.ok(name, name)


if __name__ == '__main__':
    sys.exit(C.main())
