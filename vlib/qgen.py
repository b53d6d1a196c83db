"""Random networks in the style that the quantizers rewrite: fusable layers, arithmetic in all spellings, joins, activations."""
import torch
import torch.nn as nn

from . import progs

COPY = '''
class Basic(nn.Module):
    def __init__(self, c):
        super().__init__()
        self.conv1, self.bn1 = nn.Conv2d(c, c, 3, padding=1, bias=False), nn.BatchNorm2d(c)
        self.conv2, self.bn2 = nn.Conv2d(c, c, 1, bias=False), nn.BatchNorm2d(c)
        self.relu = nn.ReLU(inplace=True)
    def forward(self, x):
        y = self.relu(self.bn1(self.conv1(x)))
        y = self.bn2(self.conv2(y))
        y += x
        return self.relu(y)

class Inverted(nn.Module):
    def __init__(self, c):
        super().__init__()
        self.body = nn.Sequential(nn.Conv2d(c, 2 * c, 1), nn.BatchNorm2d(2 * c), nn.ReLU6(), nn.Conv2d(2 * c, 2 * c, 3, padding=1, groups=2 * c), nn.BatchNorm2d(2 * c),
                                  nn.Hardswish(), nn.Conv2d(2 * c, c, 1), nn.BatchNorm2d(c))
    def forward(self, x):
        return x + self.body(x)

class SE(nn.Module):
    def __init__(self, c):
        super().__init__()
        self.fc1, self.fc2 = nn.Conv2d(c, 2, 1), nn.Conv2d(2, c, 1)
    def forward(self, x):
        s = F.adaptive_avg_pool2d(x, 1)
        s = F.relu(self.fc1(s))
        return torch.sigmoid(self.fc2(s)) * x

class Pre(nn.Module):
    def __init__(self, c):
        super().__init__()
        self.bn, self.conv, self.bn2, self.conv2 = nn.BatchNorm2d(c), nn.Conv2d(c, c, 1), nn.BatchNorm2d(c), nn.Conv2d(c, c, 3, padding=1)
    def forward(self, x):
        y = self.conv(F.relu(self.bn(x)))
        return x + self.conv2(torch.relu(self.bn2(y)))

class Shuffle(nn.Module):
    def __init__(self, c):
        super().__init__()
        self.conv, self.bn = nn.Conv2d(c // 2, c // 2, 1), nn.BatchNorm2d(c // 2)
    def forward(self, x):
        a, b = x.chunk(2, dim=1)
        y = torch.cat((a, F.relu(self.bn(self.conv(b)))), dim=1)
        n, c, h, w = y.shape
        return y.view(n, 2, c // 2, h, w).transpose(1, 2).reshape(n, c, h, w)

class Mlp(nn.Module):
    def __init__(self, c):
        super().__init__()
        self.norm, self.a, self.b = nn.LayerNorm(c), nn.Linear(c, 2 * c), nn.Linear(2 * c, c)
    def forward(self, x):
        return x + self.b(F.gelu(self.a(self.norm(x))))

class Attention(nn.Module):
    def __init__(self, c):
        super().__init__()
        self.qkv, self.o, self.c = nn.Linear(c, 3 * c), nn.Linear(c, c), c
    def forward(self, x):
        q, k, v = self.qkv(x).chunk(3, dim=-1)
        a = torch.softmax(q @ k.transpose(-2, -1) / (self.c ** 0.5), dim=-1)
        return self.o(torch.matmul(a, v)) + x
'''
exec(COPY, progs.NS)


class QGen(progs.Gen):
    """core: only operators with quantized kernels and converter support; otherwise everything the rewriting looks at."""

    def __init__(self, r, n, core=False, inputs=None, train=False):
        self.core, self.train = core, train
        super().__init__(r, n, inputs=inputs, random_ops=False, hostile=False)

    def shapes(self):
        r = self.r
        s = r.choice([(2, 4, 6, 6), (1, 4, 8, 5), (2, 6, 5, 5), (1, 3, 6, 6), (2, 4, 6, 6), (2, 4, 8), (2, 8), (4, 6)] if not self.core else
                     [(1, 4, 6, 6), (1, 3, 8, 5), (1, 6, 5, 5), (1, 4, 6, 6), (1, 4, 8), (1, 8), (2, 6)])
        if self.train and s[0] == 1:
            s = (2,) + s[1:]
        return [s] if r.random() < 0.7 else [s, s]

    def add(self, ctor):
        """Registers a module (in several containers, but never inside wrappers that compute something)."""
        r = self.r
        k = len(self.init)
        where = r.choice(['attr', 'attr', 'attr', 'list', 'dict'])
        if where == 'list':
            line, path = f'self.lst.append({ctor})', f'self.lst[{len(self.me.lst)}]'
        elif where == 'dict':
            line, path = f"self.dct['k{k}'] = {ctor}", f"self.dct['k{k}']"
        else:
            line, path = f'self.m{k} = {ctor}', f'self.m{k}'
        self.run(line)
        return line, path

    def drop(self, path):
        if path.startswith('self.lst'):
            self.me.lst = nn.ModuleList(list(self.me.lst)[:-1])
        elif path.startswith('self.dct'):
            del self.me.dct[path[10:-2]]
        else:
            delattr(self.me, path[5:])

    def put(self, ctor, a, feature=None):
        """Calls a new module; returns the name of the result."""
        try:
            line, path = self.add(ctor)
        except Exception:
            return None
        v = self.new()
        if self.emit(v, f'{path}({a})', line, feature or 'module ' + ctor.split('(')[0]):
            self.calls.append((path, a))
            return v
        self.drop(path)
        return None

    def step(self):
        r = self.r
        a = self.pick(self.floats())
        if a is None:
            return
        roll = r.random()
        if roll < 0.40:
            return self.layer(a)
        if roll < 0.62:
            return self.arith(a)
        if roll < 0.76:
            return self.act(a)
        if roll < 0.80 and self.calls and not self.core:
            return self.reuse()
        if roll < 0.85:
            return self.block(a)
        return self.misc(a)

    def block(self, a):
        d = self.env[a].dim()
        c = self.env[a].shape[1] if d > 1 else 1
        if d == 4:
            k = self.r.choice(['Basic', 'Inverted', 'SE', 'Pre'] + (['Shuffle'] if c % 2 == 0 else []))
        elif d == 3 and not self.core:
            k, c = self.r.choice(['Mlp', 'Attention']), self.env[a].shape[-1]
        else:
            return
        self.put(f'{k}({c})', a, 'block ' + k)

    def layer(self, a):
        r = self.r
        s = tuple(self.env[a].shape)
        d, c = len(s), s[1] if len(s) > 1 else 1
        o = r.choice([2, 4, 6, c, 2 * c])
        b = r.random() < 0.6
        bn, nd = None, None
        core = self.core
        if d == 4:
            k = r.choice([1, 2, 3])
            kind = r.choice(['conv', 'conv', 'conv', 'dw', 'group', 'convt', 'linear', 'bn'] if not core else ['conv', 'conv', 'conv', 'dw', 'convt'])
            if kind == 'conv':
                v = self.put(f'nn.Conv2d({c}, {o}, {k}, stride={r.choice([1, 1, 2])}, padding={r.choice([0, 1]) if k > 1 else 0}, bias={b}' +
                             (f', padding_mode={r.choice(["zeros", "reflect", "circular"])!r}' if not core and r.random() < 0.15 else '') + ')', a)
            elif kind == 'dw':
                m = r.choice([1, 1, 2])
                o = c * m
                v = self.put(f'nn.Conv2d({c}, {o}, 3, padding=1, groups={c}, bias={b}, stride={r.choice([1, 2])})', a)
            elif kind == 'group':
                g = next((g for g in (2, 3) if c % g == 0), 1)
                o = g * r.choice([1, 2])
                v = self.put(f'nn.Conv2d({c}, {o}, {k}, groups={g}, bias={b})', a)
            elif kind == 'convt':
                v = self.put(f'nn.ConvTranspose2d({c}, {o}, {k}, stride={r.choice([1, 2])}, bias={b})', a)
            elif kind == 'linear':
                v, o = self.put(f'nn.Linear({s[-1]}, {o}, bias={b})', a), c
            else:
                v, o = a, c
            bn, chance = 'nn.BatchNorm2d', 1 if kind == 'bn' else 0.5
        elif d == 3:
            kind = r.choice(['conv', 'conv', 'convt', 'linear', 'bn'] if not core else ['conv', 'linear'])
            if kind == 'conv':
                v = self.put(f'nn.Conv1d({c}, {o}, {r.choice([1, 2, 3])}, padding={r.choice([0, 0, 1]) if not core else 0}, bias={b})', a)
            elif kind == 'convt':
                v = self.put(f'nn.ConvTranspose1d({c}, {o}, 2, bias={b})', a)
            elif kind == 'linear':
                v, o = self.put(f'nn.Linear({s[-1]}, {o}, bias={b})', a), c
            else:
                v, o = a, c
            bn, chance = 'nn.BatchNorm1d', (1 if kind == 'bn' else 0.4) if not core or kind == 'conv' else 0
        elif d == 2:
            kind = r.choice(['linear', 'linear', 'bn'] if not core else ['linear'])
            v = self.put(f'nn.Linear({c}, {o}, bias={b})', a) if kind == 'linear' else a
            if kind == 'bn':
                o = c
            bn, chance = 'nn.BatchNorm1d', 1 if kind == 'bn' else 0.4 if not core else 0.2
        else:
            if s and s[-1] > 1 and not core:
                self.put(f'nn.Linear({s[-1]}, {o}, bias={b})', a)
            return
        if v is None:
            return
        if r.random() < 0.1 and not core:
            v = self.put(r.choice(['nn.Identity()', 'nn.Dropout(0.0)']), v) or v
        if r.random() < chance:
            v = self.put(f'{bn}({o}, eps={r.choice([1e-5, 1e-3])}' + (', affine=False' if not core and r.random() < 0.1 else '') + ')', v) or v
        if r.random() < 0.6:
            self.act(v, True)

    def act(self, a, fusable=False):
        r = self.r
        n = self.new
        mods = ['nn.ReLU()', 'nn.ReLU6()', 'nn.ReLU()']
        funs = ['F.relu({a})', 'F.relu6({a})', 'torch.relu({a})', '{a}.relu()', '{a}.clamp(0, 6)', 'torch.clamp({a}, 0.0, 6.0)', '{a}.clamp(min=0)', 'torch.clamp({a}, min=0.0)', '{a}.clamp(-1, 1)', 'torch.clamp({a}, min=-0.5, max=2)']
        if not self.core:
            mods += ['nn.ReLU(inplace=True)', 'nn.ReLU6(inplace=True)', 'nn.Hardtanh(-1, 1)', 'nn.Hardtanh(0, 6)']
            funs += ['F.relu({a} * 1.0, inplace=True)', '({a} + 1).relu_()', 'F.hardtanh({a}, 0.0, 6.0)', 'torch.clamp_min({a}, 0)', '{a}.clamp_min(0.5)', 'torch.clamp_max({a}, 0.3)', '{a}.clamp(max=1.5)', 'torch.clamp({a}, 0, 1)',
                     'F.relu6({a} - 0.5, True)', '{a}.clamp(0)', 'torch.clamp({a}, None, 0.4)', '({a} * 2).clamp_(0, 6)', '({a} * 2).clamp_(min=0)', '({a} * 2).clamp_(-1, 1)']
        if not fusable or r.random() < 0.2:
            more_m = ['nn.Sigmoid()', 'nn.Tanh()', 'nn.Hardswish()', 'nn.LeakyReLU(0.2)', 'nn.Hardsigmoid()', 'nn.PReLU()', 'nn.ELU()']
            more_f = ['torch.sigmoid({a})', 'torch.tanh({a})', 'F.hardswish({a})', 'F.leaky_relu({a}, 0.1)', 'F.hardsigmoid({a})', 'F.elu({a})', '{a}.sigmoid()', '{a}.tanh()']
            if self.core:
                more_m = [x for x in more_m if 'PReLU' not in x]
            else:
                more_m += ['nn.SiLU()', 'nn.GELU()', 'nn.Softmax(dim=-1)', 'nn.LogSoftmax(dim=1)', 'nn.GLU(dim=-1)', 'nn.Softplus()', 'nn.PReLU(%d)' % (self.env[a].shape[1] if self.env[a].dim() > 1 else 1), 'nn.ELU(0.5)', 'nn.SiLU(inplace=False)',
                           'nn.LogSigmoid()', 'nn.Mish()', 'nn.CELU()', 'nn.Tanhshrink()']
                more_f += ['F.silu({a})', 'F.gelu({a})', 'F.softmax({a}, dim=-1)', 'F.log_softmax({a}, dim=1)', '{a}.softmax(1)', 'F.glu({a}, -1)', 'F.glu({a})', 'F.glu({a}, dim=1)', 'F.softplus({a})', 'F.leaky_relu({a})', 'F.leaky_relu({a}, negative_slope=0.3)',
                           'F.elu({a}, 0.5)', 'F.elu({a}, alpha=0.7)', 'F.leaky_relu({a} * 1.0, 0.2, True)', 'F.prelu({a}, torch.tensor([0.3]))', 'F.silu({a} + 0.0, inplace=True)', 'F.hardswish({a} + 0.0, inplace=True)', 'torch.selu({a})', 'F.mish({a})', 'F.logsigmoid({a})']
            mods, funs = more_m, more_f
        if r.random() < 0.5:
            return self.put(r.choice(mods), a)
        f = r.choice(funs)
        v = n()
        return v if self.emit(v, f.format(a=a), feature='f ' + f.replace('{a}', 'T')) else None

    def arith(self, a):
        r = self.r
        A = self.env[a]
        same = [n for n in self.floats() if self.env[n].shape == A.shape and n != a]
        cast = [n for n in self.floats() if n != a]
        b = self.pick(same) or a
        q = self.pick(cast) if r.random() < 0.3 and cast else b
        c = r.choice(['2', '0.5', '1', '3.0', '-1.5', '0.25'])
        pool = [f'{a} + {b}', f'{a} + {q}', f'{a} * {b}', f'torch.add({a}, {b})', f'{a}.add({b})', f'torch.mul({a}, {b})', f'{a}.mul({b})', f'{a} + {c}', f'{a} * {c}', f'{c} + {a}', f'{c} * {a}', f'torch.cat([{a}, {b}], dim=1)' if A.dim() > 1 else None,
                f'torch.cat(({a}, {b}, {a}), 1)' if A.dim() > 1 else None, f'F.relu({a} + {b})', f'torch.relu(torch.add({a}, {b}))', f'{a} - {c}', f'{a} / {c}', f'F.relu({a}.add({b}))']
        if not self.core:
            d = r.randrange(-A.dim(), A.dim()) if A.dim() else 0
            c2 = r.choice(['1e-5', '1e-3', '10', '-2', '1e3', 'math.sqrt(2)', '2 ** 0.5', 'float("0.125")', 'True', '7'])
            c = r.choice([c, c2])
            pool += [f'{a} - {b}', f'{a} - {q}', f'{a} / ({b}.abs() + 1)', f'{c} - {a}', f'{a} - {c}', f'{a} / {c}', f'torch.sub({a}, {b})', f'torch.sub({a}, {c})', f'{a}.sub({b})', f'{a}.div({c})', f'torch.div({a}, {c})', f'{c} / ({a}.abs() + 1)', f'torch.add({a}, {b}, alpha=2)', f'torch.sub({a}, {b}, alpha=0.5)',
                     f'{a}.add({b}, alpha=0.5)', f'torch.rsub({a}, {c})', f"torch.div({a}, {c}, rounding_mode='floor')", f'-{a}', f'torch.neg({a})', f'torch.cat([{a}, {b}], {d})', f'torch.cat([{a}, {b}], axis={d})', f'torch.stack([{a}, {b}], {d})', f'torch.stack([{a}, {b}, {a}])', f'torch.stack(({a}, {b}), dim={d})', f'torch.stack(({a}, {b}), axis={d})',
                     f'torch.cat([{a}] * 2, dim={d})', f'torch.add({a}, {c})', f'torch.mul({a}, {c})', f'{a}.mul({c})', f'{a}.add({c})', f'torch.add(input={a}, other={b})', f'{a} + torch.tensor(0.5)', f'{a} * torch.ones({A.shape[-1] if A.dim() else 1})', f'{a} + {a}.mean()', f'{a} * {a}', f'{a} + {a}', f'({a} + {b}) + ({a} * {b})',
                     f'sum([{a}, {b}, {a}])', f'{a} * {a}.size(-1)', f'{a} / {a}.shape[0]', f'{a} + {a}.size(0)', f'F.relu6({a} + {b})', f'({a} + {b}).clamp(0, 6)', f'({a} + {b}).clamp(-1, 1)', f'({a} + {b}).relu_()', f'F.relu({a} + {b}, inplace=True)', f'F.relu({a} + 1)', f'torch.addcmul({a}, {b}, {b})', f'{a} ** 2', f'torch.pow({a}, 2)',
                     f'{a}.square()', f'({a}.abs() + 0.1).sqrt()', f'torch.exp(-{a}.abs())', f'torch.matmul({a}, {b}.transpose(-1, -2))', f'torch.bmm({a}, {b}.transpose(1, 2))', f'{a} @ {b}.transpose(-2, -1)', f'torch.maximum({a}, {b})', f'torch.min({a}, {b})', f'torch.sub({c}, {a})' if False else f'{a}.sub({c})', f'torch.true_divide({a}, {c})',
                     f'{a}.div({b}.abs() + 0.5)', f'1 - {a}', f'1.0 / (1 + torch.exp({a}.clamp(-3, 3)))', f'{a}.rsub({c})' if False else f'{c} - {a}', f'torch.hstack([{a}, {b}])', f'torch.vstack([{a}, {b}])', f'torch.concat([{a}, {b}], 0)', f'{a} // 0.5', f'{a} % 0.7', f'torch.cat([{a}, {b} * 2, F.relu({a})], -1)' if A.dim() else None,
                     f'{a}.float() + {b}', f'{a} + {b}.detach()', f'{a} + torch.zeros_like({a})', f'{a}.add({b}).relu()', f'torch.abs({a})', f'({a} > 0).float() * {a}', f'torch.where({a} > 0, {a}, {b})']
            if r.random() < 0.2:
                return self.aug(a, b, c)
            if r.random() < 0.12:
                return self.weight(a)
        src = r.choice(pool)
        if src:
            self.emit(self.new(), src, feature=self.feature(src))

    def aug(self, a, b, c):
        """Augmented assignments and in-place calls on fresh tensors, sometimes while other names see the tensor."""
        r = self.r
        t, n = self.new(), self.new()
        lines = [f'{t} = {r.choice([f"F.relu({a})", f"{a} + {b}", f"{a} * 0.5", f"torch.sigmoid({a})", f"{a}.clone()"])}']
        op = r.choice(['+=', '*=', '-=', '/=', 'add_', 'mul_', 'sub_', 'div_', 'relu_', 'iadd2', 'act', 'act', 'view'])
        o = r.choice([b, c])
        if op == 'iadd2':
            lines += [f'{t} += {b}', f'{t} *= {c}']
        elif op == 'act':
            op = r.choice(['{t}.sigmoid_()', '{t}.tanh_()', '{t}.neg_()', '{t}.clamp_(-1, 1)', '{t}.clamp_(min=0)', '{t}.abs_()', 'F.relu({t}, inplace=True)', 'F.silu({t}, inplace=True)', 'F.leaky_relu({t}, 0.3, True)', 'F.hardswish({t}, inplace=True)',
                           'F.elu({t}, inplace=True)', '{t}.exp_()', 'F.relu6({t}, True)', '{t}.mul_(2).sub_(1)', '{t}.relu_().add_(1)', '{t}.sub_({t} * 2)'])
            lines.append(op.format(t=t))
        elif op == 'view':
            op = r.choice(['{t}.view(-1).add_(1)', '{t}[:1].mul_(2)', '{t}[..., 0].relu_()', '{t}.detach().mul_(2)', '{t}.transpose(0, -1).sub_(0.5)'])
            lines.append(op.format(t=t))
        elif op == 'relu_':
            lines.append(f'{t}.relu_()')
        elif op.endswith('_'):
            lines.append(f'{t}.{op}({o})')
        else:
            lines.append(f'{t} {op} {o}')
        lines.append(f'{n} = {r.choice([f"F.relu({t})", f"{t} * 2", f"{t} + {b}", f"torch.tanh({t})"])}')
        try:
            env = self.run('\n'.join(lines))
            if not (self.ok(env[t]) and self.ok(env[n])) or any(not torch.equal(env[k], v) for k, v in self.env.items() if isinstance(v, torch.Tensor)):
                return
        except Exception:
            return
        self.env[t], self.env[n] = env[t], env[n]
        self.body += lines
        self.features.add('aug ' + op)

    def weight(self, a):
        """Parameters and buffers in arithmetic."""
        r = self.r
        s = tuple(self.env[a].shape) or (1,)
        k = len(self.init)
        shape = r.choice([s[-1:], (1,), s[1:], s, ()])
        if r.random() < 0.5:
            line, w = f'self.p{k} = nn.Parameter(torch.randn({shape}))', f'self.p{k}'
        else:
            line, w = f"self.register_buffer('b{k}', torch.randn({shape}))", f'self.b{k}'
        try:
            self.run(line)
        except Exception:
            return
        src = r.choice([f'{a} * {w}', f'{w} * {a}', f'{a} + {w}', f'{w} - {a}', f'{a} - {w}', f'torch.cat([{a}, {w}.expand_as({a})], 0)', f'{a} / ({w}.abs() + 1)', f'F.prelu({a}, {w}.abs())', f'F.prelu({a}, {w})', f'torch.maximum({a}, {w})', f'torch.stack([{a}, {w}.expand_as({a})])'])
        self.emit(self.new(), src, line, 'weight ' + src.split('(')[0].replace(a, 'T').replace(w, 'W'))

    def misc(self, a):
        r = self.r
        A = self.env[a]
        s, d = tuple(A.shape), A.dim()
        pool = []
        if d == 4:
            pool += ['nn.MaxPool2d(2)', 'nn.AvgPool2d(2)', 'nn.AdaptiveAvgPool2d(1)', 'F.max_pool2d({a}, 2, 1)', 'F.avg_pool2d({a}, 2)', 'F.adaptive_avg_pool2d({a}, 1)', '{a}.mean([2, 3])', 'torch.mean({a}, dim=(2, 3), keepdim=True)', "F.interpolate({a}, scale_factor=2, mode='nearest')",
                     'torch.flatten({a}, 1)', '{a}.flatten(2)', '{a}.permute(0, 2, 3, 1)', '{a}.reshape({a}.size(0), -1)', 'nn.MaxPool2d(3, 1, 1)', 'F.pad({a}, (1, 1, 0, 1))']
        if d > 1:
            pool += ['{a}[:, :2]', '{a}[..., 1:]', 'nn.Flatten()', '{a}.transpose(1, -1)', '{a}.unsqueeze(1)', 'F.dropout({a}, 0.0)', 'nn.Dropout(0.0)']
        if d == 3:
            pool += ['{a}.permute(0, 2, 1)', '{a}.mean(1)', '{a}.mean(-1, keepdim=True)', 'nn.MaxPool1d(2)' if not self.core else 'nn.Identity()']
        if not self.core:
            dim = r.randrange(-d, d) if d else 0
            pool += ['nn.Identity()', f'{{a}}.sum({dim})', f'{{a}}.mean({dim})', '{a}.squeeze()', 'torch.clone({a})', '{a}.contiguous()', f'{{a}}.max({dim})[0]' if d else '{a} * 2', f'torch.amax({{a}}, {dim})', 'F.normalize({a}, dim=-1)', f'nn.LayerNorm({s[-1] if d else 1})', f'F.layer_norm({{a}}, [{s[-1] if d else 1}])',
                     f'torch.split({{a}}, 1, {dim})[0]', f'{{a}}.chunk(2, {dim})[-1]', '{a}.repeat(2, *([1] * %d))' % max(d - 1, 0), '{a}.expand(2, *{a}.shape)', '{a}.view(-1)', f'nn.RMSNorm({s[-1] if d else 1})', '{a}.var(-1)', f'torch.cumsum({{a}}, {dim})', '{a}.type_as({a})', '{a}.to(torch.float32)', '{a}.argmax(-1)', '{a}[0]', 'torch.unbind({a})[0]']
            if d == 4:
                pool += ['nn.AvgPool2d(3, 1, 1)', "nn.Upsample(scale_factor=2, mode='bilinear', align_corners=False)", 'nn.PixelShuffle(2)', 'nn.ConstantPad2d(1, 0.5)', 'nn.ZeroPad2d(1)', f'nn.GroupNorm(1, {s[1]})', f'nn.InstanceNorm2d({s[1]})', 'nn.AdaptiveMaxPool2d(1)', "F.pad({a}, (1, 1), mode='reflect')",
                         'F.pad({a}, (1, 1, 1, 1), "constant", 0.5)', "F.interpolate({a}, size=(4, 4), mode='bilinear', align_corners=True)", 'F.pixel_unshuffle({a}, 2)', 'F.unfold({a}, 2)', f'nn.Conv2d({s[1]}, 3, 1)']
            if d == 3 and r.random() < 0.5:
                k, h = r.choice(['LSTM', 'GRU', 'RNN']), r.choice([2, 3])
                line = f'self.m{len(self.init)} = nn.{k}({s[-1]}, {h}, batch_first={r.random() < 0.5}, bidirectional={r.random() < 0.3}, num_layers={r.choice([1, 1, 2])})'
                self.run(line)
                if not self.emit(self.new(), f'{line.split(" =")[0]}({a})[0]', line, k):
                    delattr(self.me, line.split(' =')[0][5:])
                return
            if d >= 2 and s[1] % 2 == 0 and r.random() < 0.2:
                v, w = self.new(), self.new()
                return self.emit(f'{v}, {w}', r.choice([f'torch.chunk({a}, 2, 1)', f'{a}.split({s[1] // 2}, dim=1)', f'torch.split({a}, [{s[1] // 2}, {s[1] - s[1] // 2}], 1)']), feature='split')
        if not pool:
            return
        x = r.choice(pool)
        if x.startswith('nn.'):
            self.put(x, a)
        else:
            self.emit(self.new(), x.format(a=a), feature='f ' + x.replace('{a}', 'T'))


def randomize(m, r):
    """Statistics and affine parameters as after some training."""
    for q in m.modules():
        if isinstance(q, nn.modules.batchnorm._BatchNorm) and q.running_mean is not None:
            q.running_mean.normal_(0, 0.3)
            q.running_var.uniform_(0.5, 2)
            if q.weight is not None:
                q.weight.data.uniform_(0.3, 1.5)
                q.weight.data[torch.rand(len(q.weight)) < 0.2] *= -1
                q.bias.data.normal_(0, 0.3)
        elif isinstance(q, (nn.PReLU,)):
            q.weight.data.uniform_(-0.2, 0.6)


def make(r, n=None, core=False, train=False, nout=None, inputs=None):
    """(class source, example inputs, features) or None; at least one output is the result of a forward statement."""
    with torch.no_grad():
        g = QGen(r, n or r.choice([2, 4, 7, 11, 16]), core=core, train=train, inputs=inputs)
        src = g.finish(nout, nested=False)
    if src is None:
        return None
    return src, g.inputs, g.features
