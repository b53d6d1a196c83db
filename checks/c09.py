"""C09: generated code with saved weights reproduces the traced model."""
import contextlib
import copy
import io
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402
from vlib import progs, tfl  # noqa: E402

import torch  # noqa: E402

C = core.Check(
    'C09',
    rule='random programs (modules in lists, dicts, sequences and nested blocks, shared modules, parameters and buffers used directly, constants, shape '
         'arithmetic, several results, in-place statements on tensors and views) traced; the generated class, loaded with the saved weights, is '
         'executed next to the original on fresh inputs in evaluation and training mode with equal random seeds; non-trivial when every output was '
         'compared on two inputs; distinct by program text',
    assumptions=['the forward pass follows the same control flow for every input compared'],
    preload=('torch', 'tnn'),
)


def flat(x):
    if isinstance(x, torch.Tensor):
        return [x]
    if isinstance(x, dict):
        x = list(x.values())
    return [t for y in x for t in flat(y)] if isinstance(x, (list, tuple)) else []


def norm(n):
    for c in '.-/;':
        n = n.replace(c, '_')
    return n


def quiet():
    return contextlib.redirect_stderr(io.StringIO())


class Raised(Exception):
    pass


def trace(model, x, **kw):
    from tinynn.graph.tracer import trace as t
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
            return t(model, x, **kw)
    except SystemExit:
        raise Raised(err.getvalue().strip().split('\n')[-1] + ' | ' + ' '.join(err.getvalue().strip().split('\n')[-3:-1])[:300]) from None


def run(model, x, seed, train):
    torch.manual_seed(seed)
    m = model.train(train)
    return flat(m(*[t.clone() for t in x]))


def same(got, want):
    if len(got) != len(want):
        return f'{len(got)} outputs instead of {len(want)}'
    for k, (g, w) in enumerate(zip(got, want)):
        if g.shape != w.shape or g.dtype != w.dtype:
            return f'output {k}: {tuple(g.shape)} {g.dtype} instead of {tuple(w.shape)} {w.dtype}'
        g, w = g.detach().double(), w.detach().double()
        if not torch.allclose(g, w, rtol=1e-5, atol=1e-6, equal_nan=True):
            return f'output {k}: differs by up to {float((g - w).abs().nan_to_num(1e9).max()):.4g}'
    return ''


def judge(ctx, src, inputs, ctor_traced, kw, train_trace, check_flag=False):
    from tinynn.graph.tracer import model_tracer
    r = ctx.rng
    M = progs.build(src)
    seed = r.randrange(10 ** 6)
    torch.manual_seed(seed)
    import contextlib as cl
    with model_tracer() if ctor_traced else cl.nullcontext():
        model = M()
        for p in model.parameters():
            p.data += torch.randn_like(p) * 0.3
        model.train(train_trace)
        xs = [[torch.randn_like(t) for t in inputs] for _ in range(2)]
        ctx.stage('trace')
        before = {k: v.clone() for k, v in model.state_dict().items()}
        rng = r.randrange(10 ** 6)
        torch.manual_seed(rng)
        try:
            graph = trace(model, inputs if r.random() < 0.7 or len(inputs) > 1 else inputs[0], **kw)
        except Raised as e:
            if 'leaf Variable that requires grad' in str(e) or 'modified inplace' in str(e):
                ctx.skip('writes to an input, which requires gradients while it is traced')
            ctx.violation('trace', f'tracing failed: {e}')
            return
        for k, v in model.state_dict().items():
            if not torch.equal(v, before[k]) and not torch.isnan(v).any():
                ctx.violation('state', f'tracing changed {k}')
                return
        with ctx.sut('generate', 'generating code'), quiet():
            graph.generate_code('gen/model.py', 'gen/model.pth', 'Gen')
    text = open('gen/model.py').read()
    with ctx.sut('import', f'loading the generated code {text[text.find("class"):text.find("if __name__")]}'):
        from tinynn.util.util import import_from_path
        G = import_from_path(f'gen_{os.getpid()}', 'gen/model.py', 'Gen')
        gen = G()
        gen.load_state_dict(torch.load('gen/model.pth'))
    orig, gen2 = copy.deepcopy(model), copy.deepcopy(gen)
    for train in (False, True):
        for k, x in enumerate([inputs] + xs):
            try:
                want = run(orig, x, seed + k, train)
            except Exception as e:
                ctx.count(f'original fails: {type(e).__name__}')
                continue
            with ctx.sut('run', f'running the generated code ({"training" if train else "evaluation"} mode) {text[text.find("def forward"):text.find("if __name__")]}'):
                got = run(gen2, x, seed + k, train)
            msg = same(got, want)
            if msg:
                ctx.violation('outputs', f'input {k}, {"training" if train else "evaluation"}: {msg}\n{text[text.find("class"):text.find("if __name__")]}')
                return
            ctx.count('outputs_compared', len(want))
            if train and k == 0:
                gw = [o for o in want if o.requires_grad]
                gg = [o for o in got if o.requires_grad]
                if len(gw) != len(gg):
                    ctx.violation('grad', f'{len(gg)} outputs need gradients instead of {len(gw)}')
                    return
                if gw:
                    try:
                        sum(o.sum() for o in gw).backward()
                    except Exception:  # invalid in-place use in the program itself
                        gw = []
                if gw:
                    with ctx.sut('backward', 'backward through the generated code'):
                        sum(o.sum() for o in gg).backward()
                    ref = {norm(n): p for n, p in orig.named_parameters()}
                    mine = {n.replace('.', '_'): p for n, p in gen2.named_parameters()}
                    for n, p in ref.items():
                        q = mine.get(n, mine.get('param_' + n))
                        if p.grad is None:
                            continue
                        if q is None:
                            ctx.violation('parameters', f'parameter {n} is missing in the generated model, which has {sorted(mine)[:20]}')
                            return
                        if q.grad is None or not torch.allclose(q.grad, p.grad, rtol=1e-4, atol=1e-5, equal_nan=True):
                            ctx.violation('gradient', f'gradient of {n} differs')
                            return
                        ctx.count('gradients_compared')
    # running statistics after training passes
    ref = {norm(n): p for n, p in orig.named_buffers()}
    for n, b in gen2.named_buffers():
        w = ref.get(n)
        if w is not None and w.shape == b.shape and not torch.allclose(w.double(), b.double(), rtol=1e-5, atol=1e-6, equal_nan=True):
            ctx.violation('buffers', f'buffer {n} differs after the training passes')
            return
    # same parameters, values and sharing
    ref = {norm(n): (n, p) for n, p in model.named_parameters(remove_duplicate=False)}
    seen = {}
    for n, p in gen.named_parameters(remove_duplicate=False):
        k = n.replace('.', '_')
        if k not in ref and k.startswith('param_'):
            k = k[6:]
        if k not in ref:
            ctx.violation('parameters', f'the generated model has a parameter {n} the original does not have ({sorted(ref)})')
            return
        w = ref[k][1]
        if w.requires_grad != p.requires_grad:
            ctx.count('frozen module weights')
        if p.dtype != w.dtype or not (torch.equal(p, w) or torch.equal(torch.nan_to_num(p), torch.nan_to_num(w))):
            ctx.violation('values', f'parameter {n} has other values')
            return
        if seen.setdefault(id(w), id(p)) != id(p):
            ctx.violation('sharing', f'the weight {n} is shared in the original, not in the generated model')
            return
        ctx.count('parameters_compared')
    if len(set(seen.values())) != len(seen):
        ctx.violation('sharing', 'two parameters of the original became one')
        return
    ctx.ok(src, src[src.find('def forward'):])


def family(ctx, **kw):
    r = ctx.rng
    torch.manual_seed(r.randrange(10 ** 6))
    made = progs.make(r, **kw)
    if made is None:
        ctx.skip('no program')
    src, inputs, feats = made
    ctx.desc = src
    for f in feats:
        ctx.count(f'feature {f[:24]}' if f.startswith(('module', 'inplace', 'const')) else 'function statements')
    opts = {}
    if r.random() < 0.25:
        opts['patch_torch_size'] = True
    # the arguments of this layer can only be recovered when its constructor was recorded, which the tracer says loudly
    ctor = 'MultiheadAttention' in src or r.random() < 0.5
    judge(ctx, src, inputs, ctor, opts, r.random() < 0.3)


@C.family('programs', quick=1500, chunk=50)
def _programs(ctx, i):
    family(ctx, hostile=False)


@C.family('inplace', quick=600, chunk=50)
def _inplace(ctx, i):
    family(ctx, hostile=True, random_ops=False)


@C.family('short', quick=1500, chunk=50)
def _short(ctx, i):
    """Two statements: most of the templates in isolation."""
    family(ctx, hostile=True, n=2)


HEAD = '''class M(nn.Module):
    def __init__(self):
        super().__init__()
        self.fc = nn.Linear(4, 4)
        self.register_buffer('seen', torch.zeros(4))

    def forward(self, x):
        y = self.fc(x)
'''
KNOWN = {
    'setitem': '        y[:, 0] = 2.0\n        return y\n',
    'setitem-tensor': '        y[:, 1:3] = torch.relu(x[:, 1:3])\n        return y + 1\n',
    'augmented-view': '        z = y[:, 0]\n        z *= 2.0\n        return y\n',
    'method-view': '        y[:, 0].mul_(2.0)\n        return y\n',
    'function-view': '        torch.nn.functional.relu_(y[:, 0])\n        return y\n',
    'augmented': '        z = y\n        z *= 2.0\n        return y + z\n',
}


@C.family('writes', quick=6, chunk=1)
def _writes(ctx, i):
    name = sorted(KNOWN)[i % len(KNOWN)]
    ctx.desc = HEAD + KNOWN[name]
    ctx.prefix = name + '/'
    torch.manual_seed(ctx.rng.randrange(10 ** 6))
    judge(ctx, HEAD + KNOWN[name], [torch.randn(3, 4)], ctx.rng.random() < 0.5, {}, False)


if __name__ == '__main__':
    sys.exit(C.main())
