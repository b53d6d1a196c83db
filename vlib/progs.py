"""Random PyTorch programs: a class with submodules in various containers and a forward made of random statements."""
import math
import random

import torch
import torch.nn as nn
import torch.nn.functional as F

NS = {'torch': torch, 'nn': nn, 'F': F, 'math': math}
BLOCKS = '''
class Block(nn.Module):
    def __init__(self, inner, gain):
        super().__init__()
        self.inner = inner
        self.gain = nn.Parameter(torch.tensor(gain))
    def forward(self, x):
        return self.inner(x) * self.gain

class Residual(nn.Module):
    def __init__(self, a, b):
        super().__init__()
        self.a = a
        self.b = b
    def forward(self, x, scale=1.0):
        y = self.b(self.a(x))
        return y + x * scale if y.shape == x.shape else y

class Affine(nn.Module):
    def __init__(self, c, dims):
        super().__init__()
        self.weight = nn.Parameter(torch.randn(c, *([1] * dims)))
        self.register_buffer('shift', torch.randn(c, *([1] * dims)))
    def forward(self, x):
        return x * self.weight + self.shift

class Deep(nn.Module):
    def __init__(self, inner):
        super().__init__()
        self.level1 = nn.ModuleList([nn.ModuleDict({'x': inner})])
    def forward(self, x):
        for d in self.level1:
            for k in d:
                x = d[k](x)
        return x
'''
exec(BLOCKS, NS)


def acts(r):
    return r.choice(['nn.ReLU()', 'nn.ReLU6()', 'nn.Sigmoid()', 'nn.Tanh()', 'nn.LeakyReLU(0.2)', 'nn.Hardswish()', 'nn.SiLU()', 'nn.ELU(0.5)', 'nn.GELU()',
                     "nn.GELU(approximate='tanh')", 'nn.Softplus(2)', 'nn.Hardtanh(-0.5, 0.75)', 'nn.Threshold(0.1, 0.5)', 'nn.Identity()', 'nn.ReLU(inplace=True)', 'nn.Mish()',
                     'nn.Softsign()', 'nn.Hardsigmoid()', 'nn.LogSigmoid()', 'nn.CELU(0.7)', 'nn.SELU()', 'nn.Tanhshrink()', 'nn.Softshrink(0.3)', 'nn.Hardshrink(0.4)',
                     'nn.Softmax(dim=1)', 'nn.LogSoftmax(dim=-1)', 'nn.Softmin(dim=1)'])


class Gen:
    def __init__(self, r, n, inputs=None, allow=None, random_ops=True, hostile=True):
        self.r, self.init, self.body, self.env, self.k = r, [], [], {}, 0
        self.hostile, self.random_ops = hostile, random_ops
        self.me = nn.Module()
        self.me.lst = nn.ModuleList()
        self.me.dct = nn.ModuleDict()
        self.init += ['self.lst = nn.ModuleList()', 'self.dct = nn.ModuleDict()']
        self.calls, self.features = [], set()
        self.ints = {}
        shapes = inputs or self.shapes()
        self.inputs = []
        for i, s in enumerate(shapes):
            t = torch.randn(s)
            self.env[f'x{i}'] = t
            self.inputs.append(t)
        self.names = [f'x{i}' for i in range(len(shapes))]
        tries = 0
        while len(self.body) < n and tries < 12 * n:
            tries += 1
            self.step()

    def shapes(self):
        r = self.r
        s = r.choice([(2, 4, 6, 6), (1, 3, 8, 5), (2, 6, 4, 4), (3, 5, 8), (2, 8), (4, 6, 6), (2, 4, 5, 5)])
        return [s] if r.random() < 0.6 else [s, r.choice([s, s[:1] + s[2:], (s[-1],), s[:2] + (1,) * (len(s) - 2)])]

    # -- execution ------------------------------------------------------
    def run(self, src, extra=None):
        env = dict(self.env, self=self.me, **(extra or {}))
        exec(src, NS, env)
        env.pop('self')
        return env

    def ok(self, v):
        if isinstance(v, torch.Tensor):
            if v.numel() == 0 or v.numel() > 4000 or v.dim() > 6:
                return False
            if v.is_complex() or v.is_sparse:
                return False
            return not v.is_floating_point() or bool(torch.isfinite(v).all()) and float(v.detach().abs().max()) < 200
        if isinstance(v, (tuple, list)):
            return len(v) > 0 and all(self.ok(x) for x in v)
        return False

    def vars(self, pred):
        return [k for k, v in self.env.items() if isinstance(v, torch.Tensor) and pred(v)]

    def floats(self, dim=None):
        return self.vars(lambda v: v.is_floating_point() and v.dtype == torch.float32 and (dim is None or v.dim() == dim))

    def pick(self, names):
        if not names:
            return None
        names = list(names)
        return self.r.choice(names[-4:]) if self.r.random() < 0.7 else self.r.choice(names)

    # -- modules --------------------------------------------------------
    def module(self, ctor):
        """Registers a module somewhere and returns how to reach it."""
        r = self.r
        k = len(self.init)
        where = r.choice(['attr', 'attr', 'attr', 'list', 'dict', 'dict2', 'block', 'seq', 'deep', 'seqin', 'residual'])
        name = f'm{k}'
        if where == 'list':
            line, path = f'self.lst.append({ctor})', f'self.lst[{len(self.me.lst)}]'
        elif where == 'dict':
            line, path = f"self.dct['k{k}'] = {ctor}", f"self.dct['k{k}']"
        elif where == 'dict2':
            line, path = f"self.dct['k-{k}/a'] = {ctor}", f"self.dct['k-{k}/a']"
        elif where == 'block':
            line, path = f'self.{name} = Block({ctor}, {r.choice([0.5, 1.5, -0.75])})', f'self.{name}'
        elif where == 'seq':
            line, path = f'self.{name} = nn.Sequential({ctor}, {acts(r)})', f'self.{name}'
        elif where == 'seqin':
            line, path = f'self.{name} = nn.Sequential(nn.Identity(), nn.Sequential({ctor}))', f'self.{name}'
        elif where == 'deep':
            line, path = f'self.{name} = Deep({ctor})', f'self.{name}'
        elif where == 'residual':
            line, path = f'self.{name} = Residual({ctor}, {acts(r)})', f'self.{name}'
        else:
            line, path = f'self.{name} = {ctor}', f'self.{name}'
        self.run(line)
        return line, path

    def ctor(self, v):
        r, s = self.r, tuple(v.shape) or (1,)
        c = s[1] if len(s) > 1 else 1
        o = r.choice([2, 3, 4, c])
        k, p = r.choice([(1, 0), (3, 1), (2, 0), (3, 0)]), None
        b = r.choice([True, False])
        any_ = [lambda: acts(r), lambda: acts(r), lambda: f'nn.Linear({s[-1]}, {o}, bias={b})', lambda: f'nn.LayerNorm({s[-1]})', lambda: f'Affine({c}, {max(len(s) - 2, 0)})',
                lambda: f'nn.Dropout({r.choice([0.0, 0.3]) if self.random_ops else 0.0})', lambda: f'nn.LayerNorm({list(s[-2:])}, elementwise_affine={b})' if len(s) > 2 else 'nn.Identity()',
                lambda: f'nn.PReLU({r.choice([1, c])})', lambda: f'nn.Flatten({r.choice([0, 1])})', lambda: 'nn.GLU(-1)', lambda: f'nn.RMSNorm({s[-1]})' if hasattr(nn, 'RMSNorm') else 'nn.Identity()']
        d4 = [lambda: f'nn.Conv2d({c}, {o}, {k[0]}, padding={k[1]}, bias={b})', lambda: f'nn.Conv2d({c}, {c * 2}, 3, stride=2, padding=1, groups={c}, bias={b})',
              lambda: f'nn.Conv2d({c}, {o}, (1, 3), padding=(0, 1), dilation=(1, 1), padding_mode={r.choice(["zeros", "reflect", "circular", "replicate"])!r})',
              lambda: f"nn.Conv2d({c}, {o}, 3, padding='same')",
              lambda: f'nn.BatchNorm2d({c}, eps={r.choice([1e-5, 1e-3])}, momentum={r.choice([0.1, 0.3, None])}, affine={b}, track_running_stats={r.random() < 0.8})',
              lambda: f'nn.ConvTranspose2d({c}, {o}, 2, stride={r.choice([1, 2])}, bias={b})', lambda: f'nn.MaxPool2d({r.choice([2, 3])}, stride={r.choice([1, 2])}, ceil_mode={b})',
              lambda: f'nn.AvgPool2d(2, stride=1, padding=1, count_include_pad={b})', lambda: f'nn.AdaptiveAvgPool2d({r.choice([1, (2, 2), (None, 1)])})', lambda: 'nn.AdaptiveMaxPool2d(2)',
              lambda: f"nn.Upsample(scale_factor=2, mode={r.choice(['nearest', 'bilinear'])!r})", lambda: f"nn.Upsample(size=({s[-2] + 1}, {s[-1] * 2}), mode='bilinear', align_corners={b})",
              lambda: 'nn.UpsamplingNearest2d(scale_factor=2)', lambda: 'nn.UpsamplingBilinear2d(scale_factor=2)',
              lambda: f'nn.GroupNorm({r.choice([1, c])}, {c}, affine={b})', lambda: f'nn.InstanceNorm2d({c}, affine={b})', lambda: f'nn.ZeroPad2d({r.choice([1, (1, 0, 2, 0)])})',
              lambda: 'nn.ConstantPad2d(1, 0.5)', lambda: 'nn.ReflectionPad2d((1, 0, 1, 1))', lambda: 'nn.ReplicationPad2d(1)', lambda: 'nn.PixelShuffle(2)', lambda: 'nn.PixelUnshuffle(2)',
              lambda: 'nn.LocalResponseNorm(2)', lambda: 'nn.Softmax2d()', lambda: f'nn.Dropout2d({0.25 if self.random_ops else 0.0})', lambda: 'nn.ChannelShuffle(2)', lambda: 'nn.Unfold(2)', lambda: f'nn.Unflatten(1, (1, {c}))']
        d3 = [lambda: f'nn.Conv1d({c}, {o}, {k[0]}, padding={k[1]}, bias={b})', lambda: f'nn.BatchNorm1d({c})', lambda: 'nn.MaxPool1d(2)', lambda: 'nn.AvgPool1d(2)', lambda: 'nn.AdaptiveAvgPool1d(2)',
              lambda: f'nn.ConvTranspose1d({c}, {o}, 2)', lambda: 'nn.ConstantPad1d(1, -0.5)']
        d2 = [lambda: f'nn.BatchNorm1d({c})', lambda: f'nn.Linear({c}, {o}, bias={b})', lambda: f'nn.Bilinear({c}, {c}, 2)']
        pool = any_ + {4: d4 * 2, 3: d3, 2: d2}.get(len(s), [])
        return r.choice(pool)()

    # -- statements -----------------------------------------------------
    def step(self):
        r = self.r
        roll = r.random()
        if roll < 0.34:
            return self.module_call()
        if roll < 0.42 and self.calls:
            return self.reuse()
        if roll < 0.47:
            return self.recurrent()
        if roll < 0.56:
            return self.constant()
        if roll < 0.66 and self.hostile:
            return self.inplace()
        return self.function()

    def emit(self, lhs, src, init=None, feature=None):
        rng = torch.get_rng_state()
        try:
            env = self.run(f'{lhs} = {src}')
            outs = [x.strip() for x in lhs.split(',')]
            if not all(self.ok(env[o]) for o in outs):
                raise ValueError
            for o in outs:
                if any(env[o] is v for k, v in self.env.items()):
                    raise ValueError
        except Exception:
            torch.set_rng_state(rng)
            return False
        for o in outs:
            self.env[o] = env[o]
        if init:
            self.init.append(init)
        self.body.append(f'{lhs} = {src}')
        self.features.add(feature or src.split('(')[0].strip())
        return True

    def new(self):
        self.k += 1
        return f'v{self.k}'

    def module_call(self):
        a = self.pick(self.floats())
        if a is None:
            return
        c = self.ctor(self.env[a])
        try:
            line, path = self.module(c)
        except Exception:
            return
        n = len(self.init)
        args = f'{a}, {a}' if 'Bilinear(' in c and 'nn.Bilinear' in c else a
        if self.emit(self.new(), f'{path}({args})', line, 'module ' + c.split('(')[0]):
            self.calls.append((path, args))
        else:
            # undo the registration, so that indices stay in step
            if path.startswith('self.lst'):
                self.me.lst = nn.ModuleList(list(self.me.lst)[:-1])
            elif path.startswith('self.dct'):
                del self.me.dct[path[10:-2]]
            else:
                delattr(self.me, path[5:])
        assert len(self.init) >= n

    def reuse(self):
        path, _ = self.r.choice(self.calls)
        a = self.pick(self.floats())
        if a:
            self.emit(self.new(), f'{path}({a})', feature='reuse')

    def recurrent(self):
        r = self.r
        a = self.pick(self.floats(3))
        if a is None:
            return
        f = self.env[a].shape[-1]
        h, bf, bi = r.choice([2, 3]), r.random() < 0.5, r.random() < 0.4
        kind = r.choice(['LSTM', 'GRU', 'RNN', 'MHA', 'LSTMh', 'GRUh'])
        k = len(self.init)
        if kind == 'MHA':
            line = f'self.m{k} = nn.MultiheadAttention({f}, 1, batch_first={bf})'
            call = f'self.m{k}({a}, {a}, {a})'
        else:
            line = f'self.m{k} = nn.{kind.rstrip("h")}({f}, {h}, num_layers={r.choice([1, 2])}, batch_first={bf}, bidirectional={bi}, bias={r.random() < 0.7})'
            call = f'self.m{k}({a})'
        try:
            self.run(line)
        except Exception:
            return
        k1, k2 = self.new(), self.new()
        if kind in ('LSTM', 'LSTMh'):
            done = self.emit(f'{k1}, {k2}', call, line, kind) if False else None
            try:
                env = self.run(f'{k1}, ({k2}, {k2}c) = {call}')
                if not self.ok(env[k1]):
                    raise ValueError
            except Exception:
                done = False
            else:
                for o in (k1, k2, k2 + 'c'):
                    self.env[o] = env[o]
                self.init.append(line)
                self.body.append(f'{k1}, ({k2}, {k2}c) = {call}')
                self.features.add(kind)
                done = True
        else:
            done = self.emit(f'{k1}, {k2}', call, line, kind)
        if not done:
            delattr(self.me, f'm{k}')

    def constant(self):
        """Parameters and buffers of the model used directly, tensors created on the way, numbers."""
        r = self.r
        a = self.pick(self.floats())
        if a is None:
            return
        s = tuple(self.env[a].shape) or (1,)
        k = len(self.init)
        last = s[-1]
        big = r.choice([(last,), s[-2:], s[1:]]) if len(s) > 1 else (last,)
        line = None
        kind = r.choice(['param', 'param', 'buffer', 'buffer', 'special', 'intbuf', 'boolbuf', 'create', 'create', 'paramlist', 'attr', 'nonpersistent', 'frozen', 'like'])
        if kind == 'param':
            line, src = f'self.p{k} = nn.Parameter(torch.randn({big}))', f'{a} {r.choice("+-*")} self.p{k}'
        elif kind == 'frozen':
            line, src = f'self.p{k} = nn.Parameter(torch.randn({big}), requires_grad=False)', f'{a} * self.p{k}'
        elif kind == 'buffer':
            line, src = f"self.register_buffer('b{k}', torch.randn({big}))", f'{a} {r.choice("+-*")} self.b{k}'
        elif kind == 'nonpersistent':
            line, src = f"self.register_buffer('b{k}', torch.randn({big}), persistent=False)", f'{a} + self.b{k}'
        elif kind == 'special':
            v = r.choice(["float('inf')", "float('-inf')", '1e-7', '-0.0', '3.4e38'])
            line, src = f"self.register_buffer('b{k}', torch.full(({last},), {v}))", r.choice([f'torch.minimum({a}, self.b{k})', f'torch.maximum({a}, self.b{k})', f'torch.where(self.b{k} > 0, {a}, -{a})'])
        elif kind == 'intbuf':
            line, src = f"self.register_buffer('b{k}', torch.randint(-5, 9, {big}))", f'{a} * self.b{k}'
        elif kind == 'boolbuf':
            line, src = f"self.register_buffer('b{k}', torch.rand({big}) > 0.5)", r.choice([f'{a}.masked_fill(self.b{k}, {r.choice(["0.5", "-1e2"])})', f'torch.where(self.b{k}, {a}, {a} * 2)'])
        elif kind == 'paramlist':
            line, src = f'self.pl{k} = nn.ParameterList([nn.Parameter(torch.randn({last})), nn.Parameter(torch.ones({last}))])', f'{a} * self.pl{k}[1] + self.pl{k}[0]'
        elif kind == 'attr':
            line, src = f'self.const{k} = torch.randn({last})', f'{a} + self.const{k}'
        elif kind == 'create':
            src = r.choice([f'{a} + torch.ones({big})', f'{a} * torch.arange({last})', f'{a} + torch.linspace(0, 1, {last})', f'{a} + torch.tensor([{", ".join(str(round(r.uniform(-1, 1), 3)) for _ in range(last))}])',
                            f'{a} + torch.zeros({big}, dtype=torch.float32)', f'{a} * torch.full(({last},), 0.5)', f'{a} @ torch.eye({last})', f'{a} + torch.tensor(0.25)',
                            f'{a} + torch.randn({big})' if self.random_ops else f'{a} + torch.eye({last})[0]'])
        else:
            src = r.choice([f'torch.zeros_like({a}) - {a}', f'torch.ones_like({a}) + {a}', f'{a}.new_zeros({a}.shape) + 1', f'torch.full_like({a}, 0.5) * {a}', f'{a}.new_tensor([1.0, 2.0]).sum() * {a}',
                            f'{a}.new_ones({last}) * {a}', f'torch.zeros({a}.shape) + {a}', f'{a} + torch.zeros({a}.size(0), *{a}.shape[1:])', f'{a}.new_full(({last},), 2.0) * {a}'])
        if line:
            try:
                self.run(line)
            except Exception:
                return
        self.emit(self.new(), src, line, 'const ' + kind)

    def inplace(self):
        """Statements that modify tensors in place, also through views."""
        r = self.r
        src = self.pick([n for n in self.floats() if n not in self.names])
        if src is None:
            return
        b = self.pick(self.floats()) or src
        t = self.new()
        s = tuple(self.env[src].shape)
        sc = r.choice(['0.5', '2', 'torch.tensor(0.3)', b])
        pre = f'{t} = {r.choice([src + ".clone()", src + " * 1.0", "torch.tanh(" + src + ")"])}'
        view = r.choice(['', '', '', '[0]', '[:, 0]', '[..., 0]', '[:, :1]', '[..., ::2]', '[-1:]', '.view(-1)', '.transpose(0, -1)', '[:, 1:]'])
        op = r.choice(['+=', '-=', '*=', '/=', '.add_', '.mul_', '.sub_', '.div_', '.clamp_', 'F.relu', '.relu_', '.sigmoid_', '.copy_', '.fill_', '.zero_', '.masked_fill_', '.neg_', '**=',
                       '.addcmul_', '.clamp_min_', 'F.leaky_relu', '.floor_divide'])
        if op.endswith('='):
            view = ''  # augmented assignments to views are a known finding
        lines = [pre]
        target = t + view
        if view and r.random() < 0.5 or view.endswith(')'):
            w = self.new()
            lines.append(f'{w} = {t}{view}')
            target = w
        if op.endswith('='):
            lines.append(f'{target} {op} {sc}')
        elif op in ('.add_', '.mul_', '.sub_', '.div_', '.copy_', '.fill_'):
            lines.append(f'{target}{op}({sc if op != ".fill_" else "0.7"})')
        elif op == '.clamp_':
            lines.append(f'{target}.clamp_(-0.5, 0.8)')
        elif op == '.clamp_min_':
            lines.append(f'{target}.clamp_min_(0.1)')
        elif op in ('F.relu', 'F.leaky_relu'):
            lines.append(f'{op}({target}, inplace=True)')
        elif op == 'hardtanh_':
            lines.append(f'F.hardtanh_({target})')
        elif op == '.masked_fill_':
            lines.append(f'{target}.masked_fill_({target} > 0.2, -0.1)')
        elif op == '.addcmul_':
            lines.append(f'{target}.addcmul_({target}, {target}, value=0.5)')
        elif op == 'set':
            lines.append(f'{t}{view or "[0]"} = {sc}' if not view.endswith(')') else f'{target}[0] = {sc}')
        elif op == '.floor_divide':
            lines.append(f'{target}.round_()')
        else:
            lines.append(f'{target}{op}()')
        try:
            env = self.run('\n'.join(lines))
            new = [x.split(' = ')[0] for x in lines if ' = ' in x and x.split(' = ')[0].isidentifier()]
            if not all(self.ok(env[n]) for n in new):
                return
            if any(not torch.equal(env[n], v) for n, v in self.env.items() if isinstance(v, torch.Tensor)):
                return
        except Exception:
            return
        for n in dict.fromkeys(new):
            self.env[n] = env[n]
        self.body += lines
        self.features.add('inplace ' + op + (' view' if view else ''))

    def function(self):
        r = self.r
        roll = r.random()
        fl = self.floats()
        if not fl:
            return
        a = self.pick(fl)
        A = self.env[a]
        s, d = tuple(A.shape), A.dim()
        b = self.pick([n for n in fl if self.env[n].shape == A.shape]) or a
        q = self.pick(fl)
        dim = r.randrange(-d, d) if d else 0
        sc = r.choice(['2', '0.5', '-1.5', '1e-3'])
        if roll < 0.18 and d:  # several results
            n = s[dim]
            if n < 2:
                return
            k = r.choice(['split', 'chunk', 'unbind', 'max', 'min', 'sort', 'topk', 'splitsz', 'std_mean', 'median', 'tsplit', 'mesh', 'bcast', 'frexp', 'cummax', 'vsplit'])
            v = [self.new() for _ in range(2)]
            h = (n + 1) // 2
            src = {'split': f'torch.split({a}, {h}, dim={dim})', 'chunk': f'{a}.chunk(2, {dim})', 'unbind': f'{a}.unbind({dim})' if n == 2 else None, 'max': f'{a}.max({dim})', 'min': f'torch.min({a}, dim={dim}, keepdim=True)',
                   'sort': f'torch.sort({a}, {dim})', 'topk': f'{a}.topk({min(n, 2)}, dim={dim})', 'splitsz': f'{a}.split([{h}, {n - h}], {dim})', 'std_mean': f'torch.std_mean({a}, dim={dim})', 'median': f'torch.median({a}, {dim})',
                   'tsplit': f'torch.tensor_split({a}, 2, dim={dim})', 'mesh': f"torch.meshgrid({a}.flatten()[:3], {a}.flatten()[1:4], indexing='ij')", 'bcast': f'torch.broadcast_tensors({a}, {a}[..., :1])', 'frexp': None,
                   'cummax': f'torch.cummax({a}, {dim})', 'vsplit': f'{a}.tensor_split(2, {dim})'}[k]
            if src is None:
                return
            form = r.random()
            if form < 0.55:
                return self.emit(f'{v[0]}, {v[1]}', src, feature='multi ' + k)
            t = 't' + v[0]
            if form < 0.75:
                return self.emit(v[0], f'{src}[{r.choice([0, 1, -1])}]', feature='multi-index ' + k)
            if k in ('max', 'min', 'sort', 'median') and form < 0.85:
                return self.emit(v[0], f'{src}.values', feature='multi-attr ' + k)
            return self.emit(v[0], f'(lambda {t}: {t}[1] * 2 if {t}[1].is_floating_point() else {t}[0] * 3)({src})', feature='multi-nested ' + k)
        if roll < 0.34:  # shapes
            perm = list(range(d))
            r.shuffle(perm)
            src = r.choice([f'{a}.permute({", ".join(map(str, perm))})' if d else None, f'{a}.transpose({dim}, {r.randrange(d) if d else 0})' if d else None, f'{a}.reshape({s[0] if d else 1}, -1)', f'{a}.view({a}.size(0), -1)', f'{a}.view({a}.shape[0], -1)',
                            f'torch.flatten({a}, 1)', f'{a}.flatten({r.choice([0, 1])})', f'{a}.unsqueeze({dim})', f'{a}.squeeze()', f'{a}.squeeze({dim})', f'{a}[:, 0]', f'{a}[..., {r.choice(["0", "-1", "1:", "::2", ":-1"])}]', f'{a}[0]', f'{a}[:, None]',
                            f'{a}[{r.choice(["None", "..., None", "0:1", "-1"])}]', f'{a}.contiguous().view(-1)', f'{a}.expand(2, *{a}.shape)', f'{a}.repeat(*([1] * {d}), )' if d else None, f'{a}.repeat(2, *([1] * {d - 1}))' if d else None,
                            f'torch.roll({a}, 1, {dim})', f'torch.flip({a}, [{dim}])', f'{a}.narrow({dim}, 0, 1)', f'torch.index_select({a}, {dim}, torch.tensor([0, 0]))', f'torch.stack([{a}, {b}], {dim})', f'torch.cat([{a}, {b}], {dim})', f'torch.cat(({a}, {b}, {a}), dim={dim})',
                            f'torch.cat([{a}] + list({b}.chunk(2, {dim})), {dim})', f'{a}.t()' if d == 2 else None, f'{a}.swapaxes(0, -1)', f'torch.movedim({a}, 0, -1)', f'{a}.reshape({a}.shape[:1] + (-1,))', f'F.pad({a}, (1, 0))', f"F.pad({a}, [0, 1], 'constant', {sc})",
                            f'{a}.unfold({dim}, 2, 1)', f'{a}.view_as({b})', f'{a}.expand_as({b})', f'{a}.reshape({a}.numel())', f'torch.gather({a}, {dim}, torch.zeros_like({a}, dtype=torch.int64))', f'{a}[torch.tensor([0, 0])]', f'torch.unsqueeze(input={a}, dim=0)',
                            f'{a}.view([{a}.size(0), -1])', f'{a}.size(-1) * {a}', f'{a} * ({a}.shape[-1] // 2)', f'{a} / math.sqrt({a}.size(-1))', f'{a}.view(*{a}.size())', f'{a}.reshape({a}.size())', f'torch.reshape({a}, tuple({a}.shape))', f'{a}.tile(2)', f'{a}.diagonal(0, 0, -1)' if d > 1 else None,
                            f'{a}[:, [0, 0]]', f'{a}[..., slice(0, 1)]', f'F.interpolate({a}, scale_factor=2.0)', f"F.interpolate({a}, size=[{', '.join('3' for _ in s[2:])}])", f'torch.tril({a})'])
        elif roll < 0.54:  # element-wise
            src = r.choice([f'{a} + {b}', f'{a} - {q}', f'{a} * {q}', f'{a} / ({b}.abs() + 1)', f'{a} + {sc}', f'{sc} - {a}', f'{sc} * {a}', f'{sc} / ({a} ** 2 + 1)', f'{a} ** 2', f'-{a}', f'abs({a})', f'torch.add({a}, {b}, alpha=2)', f'torch.sub({a}, {b}, alpha=0.5)',
                            f'{a}.add({b})', f'{a}.mul({sc})', f'torch.mul({a}, {q})', f'torch.div({a}, {sc})', f"torch.div({a}, 0.3, rounding_mode='floor')", f'{a} // 0.3', f'{a} % 0.7', f'torch.exp(-{a}.abs())', f'{a}.abs().sqrt()', f'torch.rsqrt({a} * {a} + 1)', f'torch.sigmoid({a})',
                            f'{a}.tanh()', f'F.relu({a})', f'F.relu6({a})', f'F.hardswish({a})', f'F.silu({a})', f'F.gelu({a})', f"F.gelu({a}, approximate='tanh')", f'F.leaky_relu({a}, 0.3)', f'F.elu({a}, alpha=0.5)', f'F.softmax({a}, dim={dim})', f'{a}.softmax({dim})', f'F.log_softmax({a}, {dim})',
                            f'torch.clamp({a}, -0.5, 0.5)', f'{a}.clamp(min=0)', f'{a}.clamp(max={sc})', f'torch.clamp({a}, min=-1, max=None)', f'torch.where({a} > 0, {a}, {b})', f'torch.where({a} > {b}, {a}, {b})', f'torch.maximum({a}, {b})', f'torch.max({a}, {b})', f'torch.lerp({a}, {b}, 0.3)',
                            f'torch.addcmul({a}, {b}, {b}, value=0.5)', f'{a}.masked_fill({b} > 0, 0.0)', f'F.normalize({a}, dim={dim})', f'F.hardtanh({a}, -0.3, 0.9)', f'F.softplus({a})', f'torch.round({a})', f'torch.floor({a})', f'{a}.sign()', f'torch.sin({a})', f'torch.cos({a})', f'{a}.pow(2)', f'torch.pow(2, {a}.clamp(-3, 3))',
                            f'{a}.float() + ({b} > 0).float()', f'({a} > {sc}).to(torch.float32)', f'({a} >= {b}).type(torch.float32) * {a}', f'({a} != 0).type_as({a})', f'{a}.to({b}.dtype) + {a}.to(torch.float64).float()', f'{a}.to({b}.device)', f'{a}.to("cpu")', f'{a}.half().float()', f'{a}.int().float()', f'({a} > 0).logical_and({b} > 0).float()',
                            f'((({a} > 0) & ({b} < 1)) | ({a} < -1)).float()', f'(~({a} > 0)).float()', f'torch.atan2({a}, {b})', f'{a}.clone()', f'{a}.detach() + {b}', f'torch.erf({a})', f'F.dropout({a}, 0.0)', f'{a}.rsub({sc})', f'torch.logical_not({a}).float()',
                            f'{a}.nan_to_num(nan=0.5, posinf=1.0)', f'torch.nan_to_num({a} / 0, nan=0.1, posinf=2.0, neginf=-2.0)', f'{a} * True', f'{a} + 10 ** -5', f'{a} * float("1e-05")', f'{a} - {a}.mean()', f'torch.isinf({a}).float() + {a}', f'{a}.masked_fill({a} > 0, float("-inf")).clamp(min=-9)', f'{a}.contiguous(memory_format=torch.contiguous_format)',
                            f'torch.special.expit({a})', f'F.threshold({a}, 0.1, 20)', f'F.glu({a}, {dim})', f'F.prelu({a}, torch.tensor([0.2]))', f'F.mish({a})', f'F.logsigmoid({a})'])
        elif roll < 0.68:  # reductions, products
            kd = r.choice(['True', 'False'])
            src = r.choice([f'{a}.mean({dim})', f'torch.mean({a}, dim={dim}, keepdim={kd})', f'{a}.sum({dim}, keepdim={kd})', f'{a}.sum()', f'{a}.mean([0, -1])', f'{a}.amax(({dim},))', f'torch.var({a}, {dim}, unbiased=False)', f'{a}.std({dim}, keepdim=True)', f'torch.norm({a}, dim={dim})', f'{a}.norm(p=2, dim={dim}, keepdim=True)',
                            f'{a}.prod({dim})', f'torch.cumsum({a}, {dim})', f'torch.logsumexp({a}, {dim})', f'{a}.argmax({dim}).float()', f'{a}.argmax({dim})', f'({a} > 0).any({dim}).float()', f'{a}.max()', f'{a}.max(dim={dim})[0]', f'{a}.std()', f'torch.linalg.norm({a}, dim={dim})', f'torch.count_nonzero({a} > 0, dim={dim}).float()',
                            f'torch.matmul({a}, {b}.transpose(-1, -2))', f'{a} @ {b}.transpose(-2, -1)', f'torch.bmm({a}, {b}.permute(0, 2, 1))', f'{a}.matmul({b}.transpose(-1, -2)) / 3', f"torch.einsum('...i,...i->...', {a}, {b})", f"torch.einsum('...ij,...kj->...ik', {a}, {b})", f'torch.outer({a}.flatten()[:3], {b}.flatten()[:2])',
                            f'F.linear({a}, {a}.reshape(-1, {s[-1] if d else 1})[:2])', f'F.cosine_similarity({a}, {b}, dim={dim})', f'torch.cdist({a}, {b})', f'F.mse_loss({a}, {b})', f"F.l1_loss({a}, {b}, reduction='none')", f'torch.dist({a}, {b})', f'F.layer_norm({a}, {a}.shape[-1:])', f'F.layer_norm({a}, [{s[-1] if d else 1}], eps=1e-3)',
                            f'F.avg_pool2d({a}, 2)', f'F.max_pool2d({a}, kernel_size=2, stride=1)', f'F.adaptive_avg_pool2d({a}, 1)', f'F.adaptive_avg_pool2d({a}, (2, 1))', f'F.max_pool1d({a}, 2)', f'F.one_hot({a}.argmax(-1), {s[-1] if d else 1}).float()', f'F.batch_norm({a}, torch.zeros({s[1] if d > 1 else 1}), torch.ones({s[1] if d > 1 else 1}))', f'F.unfold({a}, 2)', f'F.pixel_shuffle({a}, 2)',
                            f'F.conv2d({a}, {b}[:, :, :2, :2], padding=1)' if d == 4 and s[0] > 0 else None, f'torch.linalg.vector_norm({a})', f'{a}.var()', f'F.instance_norm({a})', f'F.group_norm({a}, 1)', f'F.scaled_dot_product_attention({a}, {b}, {a})' if d > 2 else None, f'F.affine_grid({a}.flatten()[:6].view(1, 2, 3), [1, 1, 2, 2], align_corners=False)'])
        elif roll < 0.76:  # integer and boolean values
            ib = self.vars(lambda v: not v.is_floating_point())
            if not ib or r.random() < 0.4:
                src = r.choice([f'{a} > 0', f'{a}.long()', f'{a}.int()', f'torch.argmax({a}, dim={dim})', f'torch.arange({s[-1] if d else 2})', f'{a}.le({b})', f'torch.eq({a}, {b})', f'{a}.bool()', f'torch.arange({a}.size(-1))', f'torch.arange(0, {a}.shape[-1], 1, device={a}.device)'])
            else:
                i = self.pick(ib)
                src = r.choice([f'{i} + 1', f'{i} * 2', f'{i}.float() * 0.5', f'{i}.to(torch.float32)', f'{a} * {i}', f'{i} == {i}', f'{i}.sum()', f'torch.where({i} > 0, 1.0, 0.5)', f'~{i}', f'{i} & {i}', f'{i} // 2', f'{i} % 2', f'{i}.any()', f'{i} << 1', f'{i}.type(torch.int32)', f'{i}.unsqueeze(-1)', f'{i} ^ {i}',
                                f'{a}.masked_fill({i} > 0, 1.0)', f'{a} + {i}.type_as({a})'])
        elif roll < 0.84:  # nested and conditional code
            v = self.new()
            src = r.choice([f'sum([{a}, {b}, {a}])', f'torch.stack([t * 2 for t in {a}.unbind(0)])', f'torch.cat([t.unsqueeze(0) for t in [{a}, {b}]], 0)', f'({a} if {a}.dim() > 2 else -{a}) * 1.5', f'{a}.relu().add({b}).mul(0.5).tanh()', f'torch.stack(list({a}), 0)', f'(lambda p: p[0] + p[1])(({a}, {b}))',
                            f'torch.stack([{a}[j] for j in range({a}.shape[0])])', f'{a}.sub({b}).abs().mean({dim}, keepdim=True) + {a}', f'torch.cat([{a}[:1], {a}[1:]], 0)', f'functools_reduce([{a}, {b}])' if False else f'{a} + ({b} + {b}) * ({a} - {b})', f'torch.ones(2, {s[-1] if d else 1}).mean(0) * {a}',
                            f'{a}.transpose(0, -1).contiguous().transpose(0, -1)', f'torch.sigmoid({a}) * {a} + F.relu({b})', f'[{a} * k for k in range(3)][2]', f'{{"k": {a} + 1}}["k"]', f'{a}[(slice(None),) * {max(d - 1, 0)} + (0,)]' if d else None])
        elif self.random_ops and roll < 0.87:
            src = r.choice([f'torch.rand_like({a}) + {a}', f'{a} + torch.randn({a}.shape)', f'F.dropout({a}, p=0.5)', f'torch.bernoulli(torch.sigmoid({a}))', f'{a} * torch.rand(1)', f'torch.randint(0, 3, {s}).float() + {a}'])
        else:
            return
        if src is None:
            return
        self.emit(self.new(), src, feature=self.feature(src))

    def feature(self, src):
        import re
        return 'f ' + re.sub(r'\b[vx]\d+c?\b', 'T', src)[:40]

    # -- result ---------------------------------------------------------
    def finish(self, nout=None, nested=True):
        r = self.r
        cand = [n for n in self.env if n not in self.names]
        if not cand:
            return None
        used = {n for n in cand if any(n in line.split(' = ', 1)[-1] for line in self.body)}
        tail = [n for n in cand if n not in used] or cand
        k = nout or r.choice([1, 1, 2, 3])
        outs = tail[-1:] + [n for n in r.sample(cand, min(k - 1, len(cand))) if n != tail[-1]]
        if nested and len(outs) > 2 and r.random() < 0.3:
            ret = f'{outs[0]}, [{", ".join(outs[1:])}]'
        elif nested and len(outs) > 1 and r.random() < 0.15:
            ret = '{' + ', '.join(f'"{o}": {o}' for o in outs) + '}'
        else:
            ret = ', '.join(outs)
        self.outs = outs
        ind = '        '
        code = ['class M(nn.Module):', '    def __init__(self):', ind + 'super().__init__()'] + [ind + x for x in self.init]
        if r.random() < 0.3:
            code.append(ind + 'self.unused = nn.Linear(3, 3)')
        code += [f'    def forward(self, {", ".join(self.names)}):'] + [ind + x for x in self.body] + [ind + f'return {ret}']
        return '\n'.join(code)


def build(src, name='M'):
    ns = dict(NS)
    exec(src, ns)
    return ns[name]


def make(r, n=None, **kw):
    """(class source, example inputs, features) or None"""
    with torch.no_grad():
        nout = kw.pop('nout', None)
        nested = kw.pop('nested', True)
        g = Gen(r, n or r.choice([3, 6, 10, 16]), **kw)
        src = g.finish(nout, nested)
    if src is None:
        return None
    return src, g.inputs, g.features


if __name__ == '__main__':
    import sys
    r = random.Random(int(sys.argv[1]))
    torch.manual_seed(1)
    s, x, f = make(r)
    print(s)
