"""Operator table: random single-operator programs used alone (C01) and as building blocks of random models.

UNARY[name](r, s)      -> None | (module, tag)             module maps a float tensor of shape s to a tensor (or several)
BINARY[name](r, s)     -> None | (module, s2, tag)         module maps two float tensors (shapes s, s2)
SPECIAL[name](r)       -> Prog                             full programs (integer inputs, indices, ...)
"""
import math

import torch
import torch.nn as nn
import torch.nn.functional as F


class Fn(nn.Module):
    """Wraps a function of (self, *inputs); keyword arguments become sub-modules, parameters or buffers."""

    def __init__(self, fn, **kw):
        super().__init__()
        self.fn = fn
        for k, v in kw.items():
            if isinstance(v, torch.Tensor) and not isinstance(v, nn.Parameter):
                self.register_buffer(k, v)
            else:
                setattr(self, k, v)

    def forward(self, *xs):
        return self.fn(self, *xs)


class Prog:
    def __init__(self, model, inputs, tag, gens=None, kw=None, tol=None):
        self.model, self.inputs, self.tag, self.gens, self.kw, self.tol = model, inputs, tag, gens, kw or {}, tol or {}


UNARY, BINARY, SPECIAL = {}, {}, {}
# operators whose result jumps at some input values: not placed behind other float arithmetic in random models
DISCONT = set()
# operators that end a chain (integer or several results)
TERMINAL = set()


def unary(name, discont=False, terminal=False):
    def deco(f):
        UNARY[name] = f
        if discont:
            DISCONT.add(name)
        if terminal:
            TERMINAL.add(name)
        return f
    return deco


def binary(name, discont=False):
    def deco(f):
        BINARY[name] = f
        if discont:
            DISCONT.add(name)
        return f
    return deco


def special(name):
    def deco(f):
        SPECIAL[name] = f
        return f
    return deco


def shape(r, nd=None, lo=1, hi=7, maxel=2000):
    nd = nd if nd is not None else r.choice([1, 2, 2, 3, 3, 4, 4, 4, 5])
    while True:
        s = [r.choice([lo, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi)]) for _ in range(nd)]
        if math.prod(s) <= maxel:
            return s


def img(r, c=None, lo=4, hi=9, n=None):
    return [n or r.choice([1, 1, 2]), c or r.choice([1, 2, 3, 4, 6]), r.randint(lo, hi), r.randint(lo, hi)]


def dimof(r, s, k=None):
    """A random dimension, sometimes spelled negatively."""
    d = r.randrange(len(s)) if k is None else k
    return d if r.random() < 0.5 else d - len(s)


def const(r, *shape_):
    return torch.randn(*shape_) if shape_ else torch.randn(())


# ---------------------------------------------------------------------------------------------------- element-wise
def _simple(name, fn, discont=False):
    def f(r, s, fn=fn):
        return Fn(lambda m, x: fn(x)), f'r{len(s)}'
    UNARY[name] = f
    if discont:
        DISCONT.add(name)


for _n, _f in {
    'relu': lambda x: torch.relu(x), 'relu6': lambda x: F.relu6(x), 'elu': lambda x: F.elu(x), 'sin': torch.sin, 'cos': torch.cos,
    'tanh': torch.tanh, 'sigmoid': torch.sigmoid, 'neg': torch.neg, 'abs': torch.abs, 'exp': torch.exp,
    'hardswish': F.hardswish, 'hardsigmoid': F.hardsigmoid, 'silu': F.silu, 'softplus': F.softplus, 'mish': F.mish,
    'relu_': lambda x: F.relu(x + 0.0, inplace=True), 'tanh_': lambda x: (x * 1.0).tanh_(), 'sigmoid_': lambda x: (x * 1.0).sigmoid_(),
    'hardswish_': lambda x: F.hardswish(x + 0.0, inplace=True), 'silu_': lambda x: F.silu(x * 1.0, inplace=True),
    'clone': lambda x: x.clone(), 'contiguous': lambda x: x.contiguous() * 1.5,
    'sqrt': lambda x: torch.sqrt(x.abs()), 'rsqrt': lambda x: torch.rsqrt(x.abs() + 0.25), 'log': lambda x: torch.log(x.abs() + 0.1),
    'reciprocal': lambda x: torch.reciprocal(x.abs() + 0.5), 'reciprocal_neg': lambda x: 1.0 / (x.abs() + 0.5),
    'square': lambda x: x ** 2, 'cube': lambda x: x ** 3, 'pow_half': lambda x: x.abs() ** 0.5,
}.items():
    _simple(_n, _f)
for _n, _f in {'sign': torch.sign, 'floor': torch.floor, 'round': torch.round}.items():
    _simple(_n, _f, True)


@unary('leaky_relu')
def _(r, s):
    a = r.choice([0.01, 0.1, 0.3, 1.5])
    return Fn(lambda m, x: F.leaky_relu(x, a)), f'{a}'


@unary('prelu')
def _(r, s):
    if len(s) < 2:
        return None
    shared = r.random() < 0.4
    m = nn.PReLU(1 if shared else s[1])
    with torch.no_grad():
        m.weight.uniform_(-0.5, 1.0)
    return m, f'r{len(s)}{"s" if shared else "c"}'


@unary('gelu')
def _(r, s):
    a = r.choice(['none', 'tanh'])
    return nn.GELU(approximate=a), a


@unary('scalar_arith')
def _(r, s):
    c = r.choice([0.5, 2, -1.25, 3, 1e-3, 100.0])
    k = r.choice(['add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'div', 'add_', 'mul_', 'sub_', 'div_', 'torch.add', 'torch.rsub'])
    f = {'add': lambda m, x: x + c, 'radd': lambda m, x: c + x, 'sub': lambda m, x: x - c, 'rsub': lambda m, x: c - x,
         'mul': lambda m, x: x * c, 'rmul': lambda m, x: c * x, 'div': lambda m, x: x / c,
         'add_': lambda m, x: x.clone().add_(c), 'mul_': lambda m, x: x.clone().mul_(c), 'sub_': lambda m, x: x.clone().sub_(c),
         'div_': lambda m, x: x.clone().div_(c), 'torch.add': lambda m, x: torch.add(x, c), 'torch.rsub': lambda m, x: torch.rsub(x, c)}[k]
    return Fn(f), f'{k}{"i" if isinstance(c, int) else "f"}'


@unary('rdiv')
def _(r, s):
    c = r.choice([1, 2.0, -3])
    return Fn(lambda m, x: c / (x.abs() + 0.5)), str(c)


@unary('param_arith')
def _(r, s):
    """Arithmetic with a constant tensor of a broadcastable shape."""
    mode = r.choice(['full', 'channel', 'last', 'scalar', 'ones', 'suffix'])
    if mode == 'full':
        cs = list(s)
    elif mode == 'channel':
        if len(s) < 2:
            return None
        cs = [s[1]] + [1] * (len(s) - 2)
    elif mode == 'last':
        cs = [s[-1]]
    elif mode == 'scalar':
        cs = []
    elif mode == 'ones':
        cs = [d if r.random() < 0.5 else 1 for d in s]
    else:
        cs = s[r.randrange(len(s)):]
    k = r.choice(['add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'div', 'rdiv', 'max', 'min'])
    c = torch.rand(cs) + 0.5 if k == 'div' else torch.randn(cs)
    f = {'add': lambda m, x: x + m.c, 'radd': lambda m, x: m.c + x, 'sub': lambda m, x: x - m.c, 'rsub': lambda m, x: m.c - x,
         'mul': lambda m, x: x * m.c, 'rmul': lambda m, x: m.c * x, 'div': lambda m, x: x / m.c,
         'rdiv': lambda m, x: m.c / (x.abs() + 0.5), 'max': lambda m, x: torch.maximum(x, m.c),
         'min': lambda m, x: torch.minimum(m.c, x)}[k]
    return Fn(f, c=nn.Parameter(c) if r.random() < 0.5 else c), f'{k}/{mode}/r{len(s)}'


@unary('pow')
def _(r, s):
    c = r.choice([2, 3, 2.0, 1.5, 0.5, -1.0])
    if c in (2, 3):
        return Fn(lambda m, x: torch.pow(x, c)), str(c)
    return Fn(lambda m, x: torch.pow(x.abs() + 0.3, c)), str(c)


@unary('clamp')
def _(r, s):
    lo, hi = r.choice([(0, 6), (0, None), (None, 1.0), (-1, 1), (-0.5, None), (0.0, 1.0), (None, 0), (-1.5, 0.25), (0, 1), (1, 6)])
    k = r.choice(['clamp', 'clamp_', 'minmax'])
    if k == 'minmax' and (lo is None or hi is None):
        if lo is None:
            return Fn(lambda m, x: torch.clamp_max(x, hi)), f'max{hi}'
        return Fn(lambda m, x: torch.clamp_min(x, lo)), f'min{lo}'
    return Fn(lambda m, x: torch.clamp(x, lo, hi)), f'{lo},{hi}'


@unary('hardtanh')
def _(r, s):
    lo, hi = r.choice([(0.0, 6.0), (-1.0, 1.0), (0.0, 1.0), (-2.5, 0.5), (0.5, 3.0), (-1, 2)])
    return nn.Hardtanh(lo, hi), f'{lo},{hi}'


@unary('softmax')
def _(r, s):
    d = dimof(r, s)
    return Fn(lambda m, x: F.softmax(x, d)), f'r{len(s)}d{d}'


@unary('log_softmax')
def _(r, s):
    d = dimof(r, s)
    return Fn(lambda m, x: F.log_softmax(x, d)), f'r{len(s)}d{d}'


@unary('glu')
def _(r, s):
    ds = [i for i, v in enumerate(s) if v % 2 == 0]
    if not ds:
        return None
    d = dimof(r, s, r.choice(ds))
    return Fn(lambda m, x: F.glu(x, d)), f'r{len(s)}d{d}'


@unary('dropout')
def _(r, s):
    return Fn(lambda m, x: m.d(x) * 2.0, d=r.choice([nn.Dropout(0.5), nn.Dropout(0.3, inplace=False)])), 'd'


@unary('dropout2d')
def _(r, s):
    return (Fn(lambda m, x: m.d(x) * 2.0, d=nn.Dropout2d(0.5)), 'd') if len(s) == 4 else None


# --------------------------------------------------------------------------------------------------------- shape ops
def _factor(r, n, k):
    out = []
    for _ in range(k - 1):
        ds = [d for d in range(1, n + 1) if n % d == 0]
        d = r.choice(ds)
        out.append(d)
        n //= d
    out.append(n)
    r.shuffle(out)
    return out


@unary('view')
def _(r, s):
    t = _factor(r, math.prod(s), r.choice([1, 2, 3, 4, 4, 5]))
    if r.random() < 0.5:
        t[r.randrange(len(t))] = -1
    k = r.choice(['view', 'reshape', 'reshape_dyn'])
    if k == 'reshape_dyn':
        return Fn(lambda m, x: x.reshape(x.size(0), -1)), f'dyn r{len(s)}'
    return Fn(lambda m, x: x.reshape(t) if k == 'reshape' else x.contiguous().view(*t)), f'{k} r{len(s)}->{len(t)}'


@unary('flatten')
def _(r, s):
    a = r.randrange(len(s))
    b = r.randrange(a, len(s))
    if r.random() < 0.5:
        b -= len(s)
    return Fn(lambda m, x: torch.flatten(x, a, b)), f'r{len(s)},{a},{b}'


@unary('permute')
def _(r, s):
    p = list(range(len(s)))
    r.shuffle(p)
    q = [v - len(s) if r.random() < 0.2 else v for v in p]
    return Fn(lambda m, x: x.permute(*q)), f'{p}'


@unary('transpose')
def _(r, s):
    if len(s) < 2:
        return None
    a, b = dimof(r, s), dimof(r, s)
    return Fn(lambda m, x: x.transpose(a, b)), f'r{len(s)}:{a % len(s)},{b % len(s)}'


@unary('t')
def _(r, s):
    return (Fn(lambda m, x: x.t()), f'r{len(s)}') if len(s) == 2 else None


@unary('squeeze')
def _(r, s):
    ones = [i for i, v in enumerate(s) if v == 1]
    if r.random() < 0.3:
        if len(ones) == len(s):
            return None
        return Fn(lambda m, x: x.squeeze()), f'all r{len(s)}'
    if len(s) < 2:
        return None
    d = dimof(r, s, r.choice(ones)) if ones and r.random() < 0.8 else dimof(r, s)
    return Fn(lambda m, x: x.squeeze(d)), f'r{len(s)}d{d % len(s)}{"y" if s[d] == 1 else "n"}'


@unary('unsqueeze')
def _(r, s):
    if len(s) > 4:
        return None
    d = r.randint(-len(s) - 1, len(s))
    return Fn(lambda m, x: x.unsqueeze(d)), f'r{len(s)}d{d}'


@unary('slice')
def _(r, s):
    ds = [i for i, v in enumerate(s) if v > 1]
    if not ds:
        return None
    d = r.choice(ds)
    n = s[d]
    a = r.randrange(0, n)
    b = r.randint(a + 1, n + 1)
    st = r.choice([1, 1, 1, 2, 3])
    a2 = a - n if r.random() < 0.4 and a > 0 else a
    b2 = b - n if r.random() < 0.4 and b < n else b
    k = r.choice(['both', 'start', 'end', 'multi'])
    if k == 'multi':
        sl = tuple(slice(r.randrange(0, v), None, r.choice([1, 2])) for v in s)
        return Fn(lambda m, x: x[sl]), f'multi r{len(s)}'
    sl = {'both': slice(a2, b2, st), 'start': slice(a2, None, st), 'end': slice(None, b2, st)}[k]
    if k == 'end' and r.random() < 0.5:
        e = -r.randint(1, n - 1)
        sl = slice(None, e, st)
    idx = (slice(None),) * d + (sl,)
    return Fn(lambda m, x: x[idx]), f'{k} r{len(s)}d{d}st{st}{"-" if a2 < 0 else ""}{"-" if b2 < 0 else ""}'


@unary('select')
def _(r, s):
    if len(s) < 2:
        return None
    d = dimof(r, s)
    i = r.randint(-s[d], s[d] - 1)
    return Fn(lambda m, x: x.select(d, i)), f'r{len(s)}d{d % len(s)}{"-" if i < 0 else ""}'


@unary('getitem')
def _(r, s):
    """Mixed basic indexing."""
    if len(s) < 2 or len(s) > 4:
        return None
    idx = []
    kept = 0
    newaxis = 0
    for v in s:
        k = r.choice(['all', 'all', 'int', 'slice', 'new'])
        if k == 'int' and kept == 0 and len(idx) == len(s) - 1:
            k = 'all'
        if k == 'int':
            idx.append(r.randrange(-v, v))
            continue
        if k == 'new' and newaxis == 0:
            idx.append(None)
            newaxis += 1
        idx.append(slice(None) if k != 'slice' else slice(r.randrange(0, v), None))
        kept += 1
    if kept == 0:
        return None
    t = tuple(idx)
    return Fn(lambda m, x: x[t]), ''.join('i' if isinstance(v, int) else 'n' if v is None else 's' for v in t)


@unary('expand')
def _(r, s):
    t = [r.randint(1, 4) if v == 1 and r.random() < 0.7 else v for v in s]
    u = [-1 if r.random() < 0.3 else v for v in t]
    pre = [r.randint(1, 3) for _ in range(r.choice([0, 0, 1]))] if len(s) < 5 else []
    u = pre + [v for v in u]
    if -1 in u:
        u = [s[i - len(pre)] if v == -1 and s[i - len(pre)] != 1 else (1 if v == -1 else v) for i, v in enumerate(u)]
    return Fn(lambda m, x: x.expand(*u)), f'r{len(s)}->{len(u)}{"=" if u == s else ""}'


@unary('repeat')
def _(r, s):
    t = [r.choice([1, 1, 2, 3]) for _ in range(len(s) + (r.choice([0, 0, 1]) if len(s) < 5 else 0))]
    return Fn(lambda m, x: x.repeat(*t)), f'r{len(s)}->{len(t)}'


@unary('repeat_interleave')
def _(r, s):
    n = r.choice([1, 2, 3])
    d = r.choice([None, dimof(r, s)])
    if d is not None and r.random() < 0.4:
        c = torch.tensor([r.choice([1, 2, 3]) for _ in range(s[d])])
        return Fn(lambda m, x: torch.repeat_interleave(x, m.c, dim=d), c=c), f'r{len(s)}d{d}t'
    return Fn(lambda m, x: torch.repeat_interleave(x, n, dim=d)), f'r{len(s)}d{d}n{n}'


@unary('flip')
def _(r, s):
    ds = r.sample(range(len(s)), r.randint(1, len(s)))
    ds = [d - len(s) if r.random() < 0.3 else d for d in ds]
    return Fn(lambda m, x: torch.flip(x, ds)), f'r{len(s)}n{len(ds)}'


@unary('roll')
def _(r, s):
    if r.random() < 0.25:
        n = r.randint(-4, 5)
        return Fn(lambda m, x: torch.roll(x, n)), f'r{len(s)}flat'
    k = r.randint(1, min(2, len(s)))
    ds = r.sample(range(len(s)), k)
    sh = [r.randint(-3, 4) for _ in range(k)]
    ds = [d - len(s) if r.random() < 0.3 else d for d in ds]
    if k == 1 and r.random() < 0.5:
        return Fn(lambda m, x: torch.roll(x, sh[0], ds[0])), f'r{len(s)}int'
    return Fn(lambda m, x: torch.roll(x, sh, ds)), f'r{len(s)}k{k}{"0" if 0 in sh else ""}'


@unary('pad')
def _(r, s):
    k = r.randint(1, min(len(s), 3))
    p = []
    for _ in range(k):
        p += [r.randint(0, 3), r.randint(0, 3)]
    mode = r.choice(['zero', 'const', 'reflect', 'ConstantPad'])
    if mode == 'reflect':
        if len(s) not in (3, 4):
            return None
        k = len(s) - 2
        p = []
        for j in range(k):
            n = s[-1 - j]
            p += [r.randint(0, min(n - 1, 3)), r.randint(0, min(n - 1, 3))]
        if r.random() < 0.5:
            return (nn.ReflectionPad1d if k == 1 else nn.ReflectionPad2d)(p), f'refl-mod{k}'
        return Fn(lambda m, x: F.pad(x, p, mode='reflect')), f'refl{k}'
    v = r.choice([1.5, -2.0, 3])
    if mode == 'ConstantPad':
        return nn.ConstantPad2d(p[:4], v) if len(p) >= 4 and len(s) >= 2 else nn.ConstantPad1d(p[:2], v), f'cpad{len(s)}'
    return Fn(lambda m, x: F.pad(x, p, value=0.0 if mode == 'zero' else v)), f'{mode} r{len(s)}k{k}'


@unary('split_cat', terminal=False)
def _(r, s):
    ds = [i for i, v in enumerate(s) if v > 1]
    if not ds:
        return None
    d = dimof(r, s, r.choice(ds))
    n = s[d]
    k = r.choice(['split', 'sizes', 'chunk', 'unbind', 'tensor_split'])
    if k == 'split':
        q = r.randint(1, n)
        f = lambda x: torch.split(x, q, d)
    elif k == 'sizes':
        q = r.randint(1, n - 1)
        f = lambda x: torch.split(x, [q, n - q], d)
    elif k == 'chunk':
        q = r.randint(2, min(n + 1, 5))
        f = lambda x: torch.chunk(x, q, d)
    else:
        if len(s) < 2:
            return None
        f = lambda x: torch.unbind(x, d)
        k = 'unbind'
    out = r.choice(['all', 'cat', 'some', 'arith'])

    def g(m, x):
        ys = list(f(x))
        if out == 'all':
            return tuple(ys)
        if out == 'cat':
            return torch.stack(ys[::-1], 0) if k == 'unbind' else torch.cat(ys[::-1], d)
        if out == 'some':
            return ys[-1] * 2
        return ys[0] + 1.0 if len(ys) < 2 or ys[0].shape != ys[1].shape else ys[0] * 2 - ys[1]
    return Fn(g), f'{k}/{out} r{len(s)}d{d % len(s)}'


@unary('cat_self')
def _(r, s):
    d = dimof(r, s)
    k = r.choice(['cat', 'stack', 'cat3'])
    if k == 'stack' and len(s) > 4:
        k = 'cat'
    if k == 'cat':
        return Fn(lambda m, x: torch.cat([x, x * 2.0], d)), f'cat r{len(s)}d{d}'
    if k == 'cat3':
        c = torch.randn(s)
        return Fn(lambda m, x: torch.cat([x.relu(), m.c, x], dim=d), c=c), f'cat3 r{len(s)}d{d}'
    d2 = r.randint(-len(s) - 1, len(s))
    return Fn(lambda m, x: torch.stack([x, x + 1.0, x * x], d2)), f'stack r{len(s)}d{d2}'


@unary('pixel_shuffle')
def _(r, s):
    if len(s) != 4:
        return None
    c = [u for u in (1, 2, 3) if s[1] % (u * u) == 0]
    u = max(c)
    if u == 1:
        return None
    return nn.PixelShuffle(u), f'u{u}c{s[1]}'


@unary('pixel_unshuffle')
def _(r, s):
    if len(s) != 4:
        return None
    c = [u for u in (2, 3) if s[2] % u == 0 and s[3] % u == 0]
    if not c:
        return None
    u = r.choice(c)
    return nn.PixelUnshuffle(u), f'u{u}'


@unary('unfold')
def _(r, s):
    if len(s) != 4 or min(s[2:]) < 3:
        return None
    k = [r.randint(1, 3), r.randint(1, 3)]
    d, p, st = r.choice([1, 1, (1, 1)]), r.choice([0, 1, (1, 0)]), r.choice([1, 2, (2, 1)])
    return nn.Unfold(k, dilation=d, padding=p, stride=st), f'k{k}p{p}s{st}'


@unary('fold')
def _(r, s):
    if len(s) != 3 or s[1] % 4:
        return None
    L = s[2]
    for h in range(2, 9):
        for w in range(2, 9):
            if (h - 1) * (w - 1) == L:
                return nn.Fold((h, w), 2), 'k2'
    return None


# -------------------------------------------------------------------------------------------------------- reductions
@unary('reduce')
def _(r, s):
    k = r.choice(['mean', 'sum', 'amin', 'amax', 'prod', 'std', 'var'])
    full = r.random() < 0.25
    nd = r.randint(1, len(s))
    ds = sorted(r.sample(range(len(s)), nd))
    ds = [d - len(s) if r.random() < 0.3 else d for d in ds]
    keep = r.random() < 0.5
    if k in ('std', 'var'):
        unb = r.random() < 0.5
        if unb and math.prod(s[d] for d in (range(len(s)) if full else ds)) < 2:
            unb = False
        if full:
            if r.random() < 0.3:
                c = r.choice([0, 1, 2]) if math.prod(s) > 2 else 0
                return Fn(lambda m, x: getattr(torch, k)(x, dim=None, correction=c, keepdim=keep)), f'{k} full corr{c}{keep}'
            return Fn(lambda m, x: getattr(torch, k)(x, unbiased=unb)), f'{k} full {unb}'
        if r.random() < 0.5:
            c = r.choice([0, 1, 2, 3])
            if c and math.prod(s[d] for d in ds) < c + 1:
                c = 0
            return Fn(lambda m, x: getattr(torch, k)(x, dim=ds, correction=c, keepdim=keep)), f'{k} corr{c} r{len(s)}n{nd}{keep}'
        return Fn(lambda m, x: getattr(torch, k)(x, dim=ds, unbiased=unb, keepdim=keep)), f'{k} {unb} r{len(s)}n{nd}{keep}'
    if k == 'prod':
        if full:
            return Fn(lambda m, x: torch.prod(torch.tanh(x) + 1.2)), 'prod full'
        d = ds[0]
        return Fn(lambda m, x: torch.prod(x, d, keepdim=keep)), f'prod r{len(s)}d{d}{keep}'
    if full:
        return Fn(lambda m, x: getattr(torch, {'amin': 'min', 'amax': 'max'}.get(k, k))(x)), f'{k} full r{len(s)}'
    if nd == 1 and r.random() < 0.5:
        return Fn(lambda m, x: getattr(torch, k)(x, ds[0], keep)), f'{k} r{len(s)}d{ds[0]}{keep}'
    return Fn(lambda m, x: getattr(torch, k)(x, ds, keep)), f'{k} r{len(s)}n{nd}{keep}'


@unary('norm')
def _(r, s):
    p = r.choice([1, 2])
    keep = r.random() < 0.5
    d = r.choice([None, dimof(r, s)])
    k = r.choice(['torch.norm', 'linalg'])
    if k == 'linalg':
        return Fn(lambda m, x: torch.linalg.vector_norm(x, p, dim=d, keepdim=keep if d is not None else False)), f'lin{p} d{d}{keep}'
    if d is None:
        return Fn(lambda m, x: torch.norm(x, p)), f'{p} full'
    return Fn(lambda m, x: torch.norm(x, p, dim=d, keepdim=keep)), f'{p} d{d}{keep}'


@unary('argmax', discont=True, terminal=True)
def _(r, s):
    d, keep = dimof(r, s), r.random() < 0.5
    f = r.choice([torch.argmax, torch.argmin])
    return Fn(lambda m, x: f(x, dim=d, keepdim=keep)), f'{f.__name__} r{len(s)}d{d}{keep}'


@unary('minmax_dim', terminal=True, discont=True)
def _(r, s):
    d, keep = dimof(r, s), r.random() < 0.5
    f = r.choice([torch.max, torch.min])
    return Fn(lambda m, x: f(x, d, keep)[0]), f'{f.__name__} r{len(s)}d{d}{keep}'


@unary('cumsum')
def _(r, s):
    d = dimof(r, s)
    return Fn(lambda m, x: torch.cumsum(x, d)), f'r{len(s)}d{d}'


@unary('topk', terminal=True, discont=True)
def _(r, s):
    k = r.randint(1, s[-1])
    return Fn(lambda m, x: torch.topk(x, k, dim=-1)), f'r{len(s)}k{min(k, 3)}'


# ------------------------------------------------------------------------------------------------------------ layers
def rnd_affine(m):
    with torch.no_grad():
        for n, p in m.named_parameters():
            if n.endswith('weight') and p.dim() == 1:
                p.uniform_(0.5, 1.5)
            elif n.endswith('bias'):
                p.normal_(0, 0.3)
        for n, b in m.named_buffers():
            if n.endswith('running_mean'):
                b.normal_(0, 0.5)
            elif n.endswith('running_var'):
                b.uniform_(0.4, 2.0)
    return m.eval()


@unary('linear')
def _(r, s):
    if len(s) < 2:
        return None
    b = r.random() < 0.6
    return rnd_affine(nn.Linear(s[-1], r.randint(1, 8), bias=b)), f'r{len(s)}b{b}'


@unary('conv1d')
def _(r, s):
    if len(s) != 3:
        return None
    g = r.choice([1, 1, s[1]])
    k, d, st = r.randint(1, 4), r.choice([1, 1, 2]), r.randint(1, 3)
    p = r.randint(0, 3)
    if s[2] + 2 * p < d * (k - 1) + 1:
        return None
    o = g if g > 1 else r.randint(1, 6)
    b = r.random() < 0.7
    return rnd_affine(nn.Conv1d(s[1], o, k, st, p, d, g, b)), f'k{k}s{st}p{p}d{d}g{g > 1}b{b}'


@unary('conv2d')
def _(r, s):
    if len(s) != 4:
        return None
    g = r.choice([1, 1, s[1]])
    k = [r.randint(1, 3), r.randint(1, 3)]
    st = [r.randint(1, 2), r.randint(1, 3)]
    d = r.choice([[1, 1], [1, 1], [2, 1], [2, 2], [1, 2]])
    p = r.choice([[0, 0], [k[0] // 2, k[1] // 2], [r.randint(0, 2), r.randint(0, 2)]])
    if any(s[2 + i] + 2 * p[i] < d[i] * (k[i] - 1) + 1 for i in range(2)):
        return None
    o = g if g > 1 else r.randint(1, 6)
    b = r.random() < 0.7
    return rnd_affine(nn.Conv2d(s[1], o, k, st, p, d, g, b)), f'k{k}s{st}p{p}d{d}g{g > 1}b{b}'


@unary('conv3d')
def _(r, s):
    if len(s) != 5:
        return None
    k, st, p = [r.randint(1, 2) for _ in range(3)], [r.randint(1, 2) for _ in range(3)], [r.randint(0, 1) for _ in range(3)]
    if any(s[2 + i] + 2 * p[i] < k[i] for i in range(3)) or s[1] == 1:
        return None
    b = r.random() < 0.7
    return rnd_affine(nn.Conv3d(s[1], r.randint(2, 4), k, st, p, bias=b)), f'k{k}s{st}p{p}b{b}'


@unary('conv_transpose1d')
def _(r, s):
    if len(s) != 3:
        return None
    k, st = r.randint(1, 4), r.randint(1, 3)
    p = r.randint(0, k - 1)
    op = r.randint(0, st - 1)
    if (s[2] - 1) * st - 2 * p + k + op < 1:
        return None
    b = r.random() < 0.7
    return rnd_affine(nn.ConvTranspose1d(s[1], r.randint(1, 5), k, st, p, op, bias=b)), f'k{k}s{st}p{p}o{op}b{b}'


@unary('conv_transpose2d')
def _(r, s):
    if len(s) != 4:
        return None
    k = [r.randint(1, 3), r.randint(1, 4)]
    st = [r.randint(1, 2), r.randint(1, 3)]
    p = [r.randint(0, v - 1) for v in k]
    op = [r.randint(0, v - 1) for v in st]
    if any((s[2 + i] - 1) * st[i] - 2 * p[i] + k[i] + op[i] < 1 for i in range(2)):
        return None
    b = r.random() < 0.7
    return rnd_affine(nn.ConvTranspose2d(s[1], r.randint(1, 5), k, st, p, op, bias=b)), f'k{k}s{st}p{p}o{op}b{b}'


@unary('batch_norm')
def _(r, s):
    c = {2: nn.BatchNorm1d, 3: nn.BatchNorm1d, 4: nn.BatchNorm2d, 5: nn.BatchNorm3d}.get(len(s))
    if c is None:
        return None
    a = r.random() < 0.8
    return rnd_affine(c(s[1], affine=a, eps=r.choice([1e-5, 1e-3, 0.1]))), f'r{len(s)}a{a}'


@unary('layer_norm')
def _(r, s):
    k = r.randint(1, len(s))
    if math.prod(s[-k:]) < 2:
        return None
    return rnd_affine(nn.LayerNorm(s[-k:], eps=r.choice([1e-5, 1e-2]))), f'r{len(s)}k{k}'


@unary('instance_norm')
def _(r, s):
    c = {3: nn.InstanceNorm1d, 4: nn.InstanceNorm2d}.get(len(s))
    if c is None or math.prod(s[2:]) < 2:
        return None
    a = r.random() < 0.5
    t = a and r.random() < 0.4
    return rnd_affine(c(s[1], affine=a, track_running_stats=t, eps=r.choice([1e-5, 1e-2]))), f'r{len(s)}a{a}t{t}'


@unary('group_norm')
def _(r, s):
    if len(s) < 3 or len(s) > 4:
        return None
    gs = [g for g in range(1, s[1] + 1) if s[1] % g == 0 and (s[1] // g) * math.prod(s[2:]) > 1]
    if not gs:
        return None
    g = r.choice(gs)
    a = r.random() < 0.6
    return rnd_affine(nn.GroupNorm(g, s[1], affine=a, eps=r.choice([1e-5, 1e-2]))), \
        f'r{len(s)}{"1" if g == 1 else "c" if g == s[1] else "g"}a{a}'


@unary('avg_pool2d')
def _(r, s):
    if len(s) != 4 or min(s[2:]) < 2:
        return None
    k = [r.randint(1, 3), r.randint(1, 3)]
    k = [min(k[0], s[2]), min(k[1], s[3])]
    st = r.choice([None, [r.randint(1, 2), r.randint(1, 3)]])
    p = [r.randint(0, v // 2) for v in k]
    ceil, cip = r.random() < 0.4, r.random() < 0.6
    if ceil and cip:
        cip = False  # torch divides border windows differently when both are on
    if ceil and any((s[2 + i] + 2 * p[i] - k[i]) % (st or k)[i] for i in range(2)):
        ceil = False  # rejected by the converter
    dv = k[0] * k[1] if r.random() < 0.1 else None
    return nn.AvgPool2d(k, st, p, ceil, cip if dv is None else True, dv), f'k{k}s{st}p{p}c{ceil}i{cip}'


@unary('avg_pool1d')
def _(r, s):
    if len(s) != 3 or s[2] < 3:
        return None
    k = r.randint(1, 3)
    p = r.randint(0, k // 2)
    i = r.random() < 0.5
    return nn.AvgPool1d(k, r.choice([None, 1, 2]), p, count_include_pad=i), f'k{k}p{p}i{i}'


@unary('max_pool2d')
def _(r, s):
    if len(s) != 4 or min(s[2:]) < 3:
        return None
    k = [r.randint(1, 3), r.randint(1, 3)]
    st = r.choice([None, [r.randint(1, 2), r.randint(1, 3)], [1, 1]])
    p = [r.randint(0, v // 2) for v in k]
    ceil = r.random() < 0.4
    return nn.MaxPool2d(k, st, p, ceil_mode=ceil), f'k{k}s{st}p{p}c{ceil}'


@unary('max_pool1d')
def _(r, s):
    if len(s) != 3 or s[2] < 3:
        return None
    k = r.randint(1, 3)
    p = r.randint(0, k // 2)
    ceil = r.random() < 0.4
    return nn.MaxPool1d(k, r.choice([None, 1, 2]), p, ceil_mode=ceil), f'k{k}p{p}c{ceil}'


@unary('adaptive_pool')
def _(r, s):
    if len(s) == 3:
        o = r.choice([d for d in range(1, s[2] + 1) if s[2] % d == 0])
        c = r.choice([nn.AdaptiveAvgPool1d, nn.AdaptiveMaxPool1d])
        return c(o), f'{c.__name__}{o == 1}'
    if len(s) == 4:
        o = [r.choice([d for d in range(1, v + 1) if v % d == 0]) for v in s[2:]]
        c = r.choice([nn.AdaptiveAvgPool2d, nn.AdaptiveMaxPool2d])
        return c(o), f'{c.__name__}{o == [1, 1]}'
    return None


@unary('upsample')
def _(r, s):
    if len(s) != 4:
        return None
    mode = r.choice(['nearest', 'bilinear', 'bilinear_ac'])
    kw = {'mode': mode.split('_')[0]}
    if mode != 'nearest':
        kw['align_corners'] = mode.endswith('ac')
    if r.random() < 0.5:
        kw['scale_factor'] = r.choice([2, 2.0, (2, 3), 3])
    else:
        kw['size'] = [v * r.randint(1, 3) if mode == 'nearest' else v + r.randint(0, 5) for v in s[2:]]
    return nn.Upsample(**kw), f'{mode}{"s" if "size" in kw else "f"}'


# -------------------------------------------------------------------------------------------------------- two inputs
def bcast_shape(r, s):
    k = r.choice(['same', 'same', 'ones', 'suffix', 'channel', 'scalar1', 'more'])
    if k == 'same':
        return list(s), k
    if k == 'ones':
        return [v if r.random() < 0.5 else 1 for v in s], k
    if k == 'suffix':
        return list(s[r.randrange(len(s)):]), k
    if k == 'channel' and len(s) > 1:
        return [s[1]] + [1] * (len(s) - 2), k
    if k == 'more' and len(s) < 4:
        return [r.randint(1, 3)] + list(s), k
    return [1], 'scalar1'


def _bin(name, fn, discont=False):
    def f(r, s, fn=fn):
        s2, k = bcast_shape(r, s)
        sw = r.random() < 0.4
        return Fn(lambda m, x, y: fn(y, x) if sw else fn(x, y)), s2, f'{k}{"sw" if sw else ""} r{len(s)}'
    BINARY[name] = f
    if discont:
        DISCONT.add(name)


for _n, _f in {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / (b.abs() + 0.5),
    'maximum': torch.maximum, 'minimum': torch.minimum, 'max_other': lambda a, b: torch.max(a, b), 'min_other': lambda a, b: torch.min(a, b),
    'rsub_t': lambda a, b: torch.rsub(a, b), 'sub_abs': lambda a, b: (a - b).abs(),
}.items():
    _bin(_n, _f)
for _n, _f in {
    'eq': lambda a, b: a.round() == b.round(), 'ne': lambda a, b: a.round() != b.round(), 'gt': torch.gt, 'lt': torch.lt, 'ge': torch.ge,
    'le': torch.le,
}.items():
    _bin(_n, _f, True)
    TERMINAL.add(_n)


@binary('atan2')
def _(r, s):
    return Fn(lambda m, x, y: torch.atan2(x, y)), list(s), f'r{len(s)}'


@binary('pow_t')
def _(r, s):
    return Fn(lambda m, x, y: torch.pow(x.abs() + 0.3, y.clamp(-2, 2))), list(s), f'r{len(s)}'


@binary('where')
def _(r, s):
    s2, k = list(s), 'same'
    c = r.choice([0.0, 0.5])
    f = r.choice(['where', 'masked_fill', 'masked_fill_'])
    v = r.choice([0.0, -2.0, 3])
    if f == 'where':
        return Fn(lambda m, x, y: torch.where(x > c, x, y)), s2, 'where'
    if f == 'masked_fill':
        return Fn(lambda m, x, y: x.masked_fill(y > c, v)), s2, 'mf'
    return Fn(lambda m, x, y: (x * 1.0).masked_fill_(y > c, v)), s2, 'mf_'


DISCONT.add('where')


@binary('logical')
def _(r, s):
    f = r.choice([lambda a, b: a & b, lambda a, b: a | b, lambda a, b: ~a & b, lambda a, b: torch.bitwise_or(a, torch.bitwise_not(b)),
                  lambda a, b: torch.bitwise_and(a, b)])
    return Fn(lambda m, x, y: f(x > 0, y > 0.3)), list(s), f'r{len(s)}'


DISCONT.add('logical')
TERMINAL.add('logical')


@binary('cat')
def _(r, s):
    d = r.randrange(len(s))
    s2 = list(s)
    s2[d] = r.randint(1, 5)
    dd = d if r.random() < 0.5 else d - len(s)
    sw = r.random() < 0.3
    return Fn(lambda m, x, y: torch.cat([y, x] if sw else [x, y], dd)), s2, f'r{len(s)}d{d}'


@binary('stack')
def _(r, s):
    if len(s) > 4:
        return None
    d = r.randint(-len(s) - 1, len(s))
    return Fn(lambda m, x, y: torch.stack([x, y], d)), list(s), f'r{len(s)}d{d}'


@binary('matmul')
def _(r, s):
    if len(s) < 2:
        return None
    n = r.randint(1, 5)
    k = r.choice(['2d', 'same', 'bmm'])
    if k == '2d' or len(s) == 2:
        f = torch.mm if len(s) == 2 and r.random() < 0.5 else torch.matmul
        return Fn(lambda m, x, y: f(x, y)), [s[-1], n], f'2d r{len(s)}'
    if k == 'bmm' and len(s) == 3:
        return Fn(lambda m, x, y: torch.bmm(x, y)), [s[0], s[-1], n], 'bmm'
    return Fn(lambda m, x, y: torch.matmul(x, y)), list(s[:-2]) + [s[-1], n], f'same r{len(s)}'


@binary('attention')
def _(r, s):
    if len(s) != 3:
        return None
    return Fn(lambda m, x, y: F.softmax(torch.matmul(x, y.transpose(-1, -2)), -1)), [s[0], r.randint(1, 5), s[2]], 'x'


@binary('expand_as')
def _(r, s):
    s2 = [v if v != 1 else r.randint(1, 4) for v in s]
    return Fn(lambda m, x, y: x.expand_as(y) + y), s2, f'r{len(s)}'


@binary('broadcast_tensors')
def _(r, s):
    s2, k = bcast_shape(r, s)
    return Fn(lambda m, x, y: torch.broadcast_tensors(x, y)), s2, f'{k} r{len(s)}'


TERMINAL.add('broadcast_tensors')


@binary('two_outputs')
def _(r, s):
    return Fn(lambda m, x, y: (x + y, y.relu(), x)), list(s), f'r{len(s)}'


TERMINAL.add('two_outputs')


# --------------------------------------------------------------------------------------------------- special programs
def _ri(r, lo, hi, s, dtype=torch.int64):
    return torch.randint(lo, hi, s, dtype=dtype)


@special('embedding')
def _(r):
    n, d = r.randint(3, 12), r.randint(1, 6)
    s = shape(r, r.choice([1, 2, 3]))
    dt = r.choice([torch.int64, torch.int32])
    g = lambda: _ri(r, 0, n, s, dt)
    return Prog(nn.Embedding(n, d), [g()], f'r{len(s)}{dt}', [g])


@special('addmm')
def _(r):
    a, b, c = r.randint(1, 5), r.randint(1, 5), r.randint(1, 5)
    w = nn.Parameter(torch.randn(b, c))
    bs = r.choice([[c], [c], [a, c], [1], [1, c]])
    bias = nn.Parameter(torch.randn(bs))
    sc = r.choice([{}, {}, {'beta': 2}, {'alpha': 0.5}, {'beta': 0.25, 'alpha': 3}])
    if r.random() < 0.3:
        return Prog(Fn(lambda m, b_, x, w_: torch.addmm(b_, x, w_, **sc)), [torch.randn(bs), torch.randn(a, b), torch.randn(b, c)],
                    f'dyn{len(bs)}{sorted(sc)}')
    return Prog(Fn(lambda m, x: torch.addmm(m.bias, x, m.w, **sc), w=w, bias=bias), [torch.randn(a, b)], f'cw{len(bs)}{sorted(sc)}')


@special('addbmm')
def _(r):
    b, n, m_, p = r.randint(1, 3), r.randint(1, 4), r.randint(1, 4), r.randint(1, 4)
    f = r.choice(['addbmm', 'baddbmm'])
    s0 = [n, p] if f == 'addbmm' else [b, n, p]
    sc = r.choice([{}, {}, {'beta': 2}, {'alpha': 0.5}, {'beta': 0.25, 'alpha': 3}])
    return Prog(Fn(lambda m, a, x, y: getattr(torch, f)(a, x, y, **sc)), [torch.randn(s0), torch.randn(b, n, m_), torch.randn(b, m_, p)],
                f'{f}{sorted(sc)}')


@special('gather')
def _(r):
    s = shape(r, r.choice([1, 2, 3]), lo=2)
    d = dimof(r, s)
    t = [r.randint(1, v) for v in s]
    n = s[d]
    t[d % len(s)] = r.randint(1, n + 2)
    g = lambda: _ri(r, 0, n, t)
    if r.random() < 0.5:
        return Prog(Fn(lambda m, x: torch.gather(x, d, m.i), i=g()), [torch.randn(s)], f'const r{len(s)}')
    return Prog(Fn(lambda m, x, i: torch.gather(x, d, i)), [torch.randn(s), g()], f'dyn r{len(s)}d{d}', [None, g])


@special('index_select')
def _(r):
    s = shape(r, lo=2, hi=5)
    d = dimof(r, s)
    k = r.randint(1, 5)
    n = s[d]
    g = lambda: _ri(r, 0, n, [k], r.choice([torch.int64, torch.int32]))
    if r.random() < 0.5:
        return Prog(Fn(lambda m, x: torch.index_select(x, d, m.i), i=g()), [torch.randn(s)], f'const r{len(s)}d{d}')
    i0 = g()
    g2 = lambda: _ri(r, 0, n, [k], i0.dtype)
    return Prog(Fn(lambda m, x, i: torch.index_select(x, d, i)), [torch.randn(s), i0], f'dyn r{len(s)}d{d}', [None, g2])


@special('index')
def _(r):
    s = shape(r, r.choice([1, 2, 3, 4]), lo=2, hi=5)
    k = r.randint(1, len(s))
    d = r.randrange(len(s))
    if r.random() < 0.6:  # one index tensor, constant, possibly on an inner dimension, possibly negative entries
        ish = r.choice([[r.randint(1, 5)], [2, r.randint(1, 3)]])
        i = _ri(r, -s[d], s[d], ish)
        idx = (slice(None),) * d + (i,)
        if r.random() < 0.5:
            i = i.clamp(min=0)
            g = lambda: _ri(r, 0, s[d], ish)
            return Prog(Fn(lambda m, x, i: x[(slice(None),) * d + (i,)]), [torch.randn(s), g()], f'dyn r{len(s)}d{d}i{len(ish)}', [None, g])
        return Prog(Fn(lambda m, x: x[idx]), [torch.randn(s)], f'const r{len(s)}d{d}i{len(ish)}')
    k = max(2, k)
    if k > len(s):
        s = shape(r, 3, lo=2, hi=5)
        k = 2
    n = r.randint(1, 5)
    idx = tuple(_ri(r, 0, s[j], [n]) for j in range(k))
    return Prog(Fn(lambda m, x: x[idx]), [torch.randn(s)], f'multi{k} r{len(s)}')


@special('index_put')
def _(r):
    s = shape(r, r.choice([1, 2, 3]), lo=2, hi=5)
    n = s[0]
    k = r.randint(1, n)
    idx = torch.randperm(n)[:k]
    vs = r.choice([[k] + s[1:], s[1:] if len(s) > 1 else [1], [1]])
    if r.random() < 0.5:
        return Prog(Fn(lambda m, x, v: (x * 1.0).index_put_((m.i,), v), i=idx), [torch.randn(s), torch.randn(vs)], f'dynv r{len(s)}{len(vs)}')
    v = torch.randn(vs)
    return Prog(Fn(lambda m, x: (x * 1.0).index_put_((m.i,), m.v), i=idx, v=v), [torch.randn(s)], f'constv r{len(s)}{len(vs)}')


@special('scatter')
def _(r):
    s = shape(r, 2, lo=2, hi=5)
    d = r.choice([0, 1, -1])
    perm = lambda: torch.stack([torch.randperm(s[d]) for _ in range(s[1 - d % 2])], d if d >= 0 else 1) if d % 2 == 0 else \
        torch.stack([torch.randperm(s[1]) for _ in range(s[0])], 0)
    if d % 2 == 0:
        perm = lambda: torch.stack([torch.randperm(s[0]) for _ in range(s[1])], 1)
    i = perm()
    z = torch.zeros(s)
    if r.random() < 0.5:
        v = r.choice([1.0, -2.5])
        return Prog(Fn(lambda m, i: torch.zeros(s).scatter_(d, i, v)), [i], f'dyn d{d}', [perm])
    return Prog(Fn(lambda m, i: torch.zeros(s).scatter_(d, i, m.v), v=torch.randn(s)), [i], f'dynv d{d}', [perm])


@special('int_arith')
def _(r):
    s = shape(r, r.choice([1, 2, 3]))
    dt = torch.int32
    k = r.choice(['add', 'sub', 'mul', 'maximum', 'minimum', 'floor_div', 'remainder', 'eq', 'gt', 'cast', 'sum', 'neg', 'le_scalar', 'abs'])
    g = lambda: _ri(r, -20, 20, s, dt)
    gp = lambda: _ri(r, 1, 20, s, dt)
    if k in ('floor_div', 'remainder'):
        c = r.choice([2, 3, 7])
        if r.random() < 0.5:
            return Prog(Fn(lambda m, x: x // c if k == 'floor_div' else x % c), [gp()], f'{k}s', [gp])
        return Prog(Fn(lambda m, x, y: x // y if k == 'floor_div' else x % y), [gp(), gp()], f'{k}t', [gp, gp])
    f2 = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'maximum': torch.maximum,
          'minimum': torch.minimum, 'eq': lambda a, b: a == b, 'gt': lambda a, b: a > b}
    if k in f2:
        return Prog(Fn(lambda m, x, y: f2[k](x, y)), [g(), g()], k, [g, g])
    f1 = {'cast': lambda x: x.float() * 0.5, 'sum': lambda x: x.float().sum(-1), 'neg': lambda x: -x, 'le_scalar': lambda x: x <= 3,
          'abs': lambda x: x.abs()}
    return Prog(Fn(lambda m, x: f1[k](x)), [g()], k, [g])


@special('int_promote')
def _(r):
    s = shape(r, r.choice([1, 2, 3, 4]))
    dt = r.choice([torch.int32, torch.int64])
    k = r.choice(['divs', 'divt', 'muls', 'adds', 'subs', 'rsubs', 'mulf', 'addf', 'sum', 'sumd', 'cumsum', 'cumsumf', 'meand', 'floor_mode', 'pad',
                  'amax', 'where', 'cmp'])
    g = lambda: _ri(r, 1, 20, s, dt)
    n = r.randrange(len(s))
    c = r.choice([0.5, 1.5, -2.25, 3, 4])
    f1 = {'divs': lambda a: a / 4, 'muls': lambda a: a * c, 'adds': lambda a: a + c, 'subs': lambda a: a - c, 'rsubs': lambda a: c - a,
          'sum': lambda a: a.sum(n), 'sumd': lambda a: a.sum(n, dtype=torch.float32), 'cumsum': lambda a: a.cumsum(n),
          'cumsumf': lambda a: a.cumsum(n, dtype=torch.float32), 'meand': lambda a: torch.mean(a, n, dtype=torch.float32),
          'pad': lambda a: F.pad(a, (1, 2), value=3), 'amax': lambda a: a.amax(n), 'cmp': lambda a: a > 2.5}
    if k in f1:
        return Prog(Fn(lambda m, x: f1[k](x)), [g()], f'{k}{dt}', [g])
    if k == 'floor_mode':
        g32 = lambda: _ri(r, 1, 20, s, torch.int32)
        return Prog(Fn(lambda m, x, y: torch.div(x, y, rounding_mode='floor')), [g32(), g32()], k, [g32, g32])
    if k == 'divt':
        return Prog(Fn(lambda m, x, y: x / y), [g(), g()], f'{k}{dt}', [g, g])
    f2 = {'mulf': lambda a, b: a * b, 'addf': lambda a, b: b + a, 'where': lambda a, b: torch.where(a > 5, b, b * 2)}
    return Prog(Fn(lambda m, x, y: f2[k](x, y)), [g(), torch.randn(s)], f'{k}{dt}', [g, None])


@special('broadcast_select')
def _(r):
    s = shape(r, r.choice([2, 3, 4]), lo=2)
    k = r.choice(['where_v', 'where_c', 'where_s', 'where_ss', 'mf_v', 'mf_t', 'mf_inf', 'clamp_t', 'clamp_min', 'clamp_max', 'clamp_lo', 'clamp_hi',
                  'floor_mode'])
    sv = s[-1:]
    f = {'where_v': lambda m, x, v: torch.where(x > 0, v, x), 'where_c': lambda m, x, v: torch.where(v > 0, x, x * 2),
         'where_s': lambda m, x, v: torch.where(x > 0, x, 0.5) + v, 'where_ss': lambda m, x, v: torch.where(x > v, 1.0, -1.0),
         'mf_v': lambda m, x, v: x.masked_fill(v > 0, 3.0), 'mf_t': lambda m, x, v: x.masked_fill(x > v, torch.tensor(2.0)),
         'mf_inf': lambda m, x, v: torch.cat([x.masked_fill(v > 0, float('-inf')), x[..., :1]], -1).softmax(-1),
         'clamp_t': lambda m, x, v: torch.clamp(x, min=torch.tensor(-0.5)) + v, 'clamp_min': lambda m, x, v: torch.clamp_min(x, -0.5) + v,
         'clamp_max': lambda m, x, v: torch.clamp_max(x, 0.25) * v, 'clamp_lo': lambda m, x, v: torch.clamp(x, min=-0.3) - v,
         'clamp_hi': lambda m, x, v: torch.clamp(x, max=0.7) - v,
         'floor_mode': lambda m, x, v: torch.div(x, v.abs() + 0.5, rounding_mode='floor')}[k]
    return Prog(Fn(f), [torch.randn(s), torch.randn(sv)], f'{k} r{len(s)}')


@special('cmp_scalar')
def _(r):
    s = shape(r, r.choice([1, 2, 3, 4]))
    c = r.choice([0, 0.5, -1])
    k = r.choice(['gt', 'lt', 'ge', 'le', 'eq', 'ne'])
    return Prog(Fn(lambda m, x: getattr(torch, k)(x.round(), c) if k in ('eq', 'ne') else getattr(torch, k)(x, c)), [torch.randn(s)], k)


@special('remainder_float')
def _(r):
    s = shape(r, r.choice([1, 2, 3, 4]))
    c = r.choice([2.0, 3, 1.5])
    return Prog(Fn(lambda m, x: torch.remainder(x, c)), [torch.randn(s) * 5], str(c))


@special('casts')
def _(r):
    s = shape(r, r.choice([1, 2, 3, 4]))
    k = r.choice(['f2i', 'f2b', 'b2f', 'type_as', 'i2f', 'f2l'])
    f = {'f2i': lambda m, x: x.to(torch.int32), 'f2b': lambda m, x: x.relu().round().bool(), 'b2f': lambda m, x: (x > 0).float() * 2,
         'type_as': lambda m, x: (x > 0).type_as(x) - 1.0, 'i2f': lambda m, x: x.to(torch.int32).float() * 0.5,
         'f2l': lambda m, x: x.to(torch.int64)}[k]
    return Prog(Fn(f), [torch.randn(s) * 4], k)


@special('size_arith')
def _(r):
    s = img(r)
    k = r.choice(['view', 'mean', 'interp', 'arange', 'ones_like', 'new_zeros'])
    f = {'view': lambda m, x: x.view(x.shape[0], x.shape[1], x.shape[2] * x.shape[3]),
         'mean': lambda m, x: x.sum((2, 3)) / (x.size(2) * x.size(3)),
         'interp': lambda m, x: F.interpolate(x, size=(x.size(2) * 2, x.size(3) * 2), mode='nearest'),
         'arange': lambda m, x: x + torch.arange(x.size(3), dtype=torch.float32),
         'ones_like': lambda m, x: x + torch.ones_like(x) * 2, 'new_zeros': lambda m, x: torch.cat([x, x.new_zeros(x.size(0), 1, x.size(2), x.size(3))], 1)}[k]
    return Prog(Fn(f), [torch.randn(s)], k)


@special('where_mask')
def _(r):
    s = shape(r, r.choice([2, 3, 4]))
    g = lambda: torch.rand(s) < 0.5
    k = r.choice(['where', 'mf', 'wheres'])
    v = r.choice([1.5, -3.0])
    f = {'where': lambda m, c, x, y: torch.where(c, x, y), 'mf': lambda m, c, x, y: x.masked_fill(c, v) + y,
         'wheres': lambda m, c, x, y: torch.where(c, x, torch.tensor(v)) + y}[k]
    return Prog(Fn(f), [g(), torch.randn(s), torch.randn(s)], k, [g, None, None])


@special('channel_shuffle')
def _(r):
    g = r.choice([2, 3])
    s = img(r, g * r.randint(1, 3))
    return Prog(Fn(lambda m, x: x.view(x.size(0), g, x.size(1) // g, x.size(2), x.size(3)).transpose(1, 2).contiguous()
                   .view(x.size(0), -1, x.size(2), x.size(3))), [torch.randn(s)], f'g{g}')


@special('nested_inputs')
def _(r):
    s = shape(r, r.choice([2, 3, 4]))
    return Prog(Fn(lambda m, x, y, z: (x * 2, (y + z, y))), [torch.randn(s), torch.randn(s), torch.randn(s)], f'r{len(s)}')


@unary('inplace')
def _(r, s):
    k = r.choice(['elu', 'hardsigmoid', 'hardtanh', 'leaky_relu', 'relu6', 'reciprocal', 'rsqrt', 'sub', 'unsqueeze',
                  'squeeze', 'fill', 'copy', 'rsub'])
    f = {'elu': lambda x: F.elu(x * 1.0, inplace=True), 'hardsigmoid': lambda x: F.hardsigmoid(x * 1.0, inplace=True),
         'hardtanh': lambda x: F.hardtanh(x * 1.0, -0.5, 0.75, inplace=True), 'leaky_relu': lambda x: F.leaky_relu(x * 1.0, 0.2, inplace=True),
         'relu6': lambda x: F.relu6(x * 4.0, inplace=True), 'reciprocal': lambda x: (x.abs() + 0.5).reciprocal_(),
         'rsqrt': lambda x: (x.abs() + 0.5).rsqrt_(), 'sqrt': lambda x: (x.abs() + 0.5).sqrt_(), 'abs': lambda x: (x * 1.0).abs_(),
         'neg': lambda x: (x * 1.0).neg_(), 'exp': lambda x: (x * 1.0).exp_(), 'clamp': lambda x: (x * 1.0).clamp_(-0.5, 0.5),
         'sub': lambda x: (x * 1.0).sub_(x.relu()), 'unsqueeze': lambda x: (x * 2.0).unsqueeze_(0), 'squeeze': lambda x: (x * 2.0).squeeze_(0),
         'fill': lambda x: x + torch.zeros_like(x).fill_(2.5), 'copy': lambda x: torch.zeros_like(x).copy_(x) * 2.0,
         'zero': lambda x: x - torch.ones_like(x).zero_() + 1.0, 'rsub': lambda x: torch.rsub(x, x.relu())}[k]
    if k == 'unsqueeze' and len(s) > 4 or k == 'squeeze' and len(s) < 2:
        return None
    return Fn(lambda m, x: f(x)), f'{k} r{len(s)}'


@special('nested_output')
def _(r):
    s = shape(r)
    k = r.choice(['tuple', 'nested'])
    f = {'dict': lambda a, b: {'p': a, 'q': b}, 'tuple': lambda a, b: (a, b), 'list': lambda a, b: [a, b], 'nested': lambda a, b: (b, (a, (b * 2,)))}[k]
    return Prog(Fn(lambda m, x, y: f(x + y, x * y - 1.0)), [torch.randn(s), torch.randn(s)], k)


@special('split_sizes_dyn')
def _(r):
    s = img(r, 6)
    k = r.choice([[1, 5], [2, 2, 2], [3, 1, 2]])
    o = r.choice(['sum', 'all', 'perm'])
    f = {'sum': lambda ys: sum(y.sum(1) for y in ys), 'all': lambda ys: tuple(y + 1.0 for y in ys), 'perm': lambda ys: torch.cat([ys[-1], ys[0]], 1)}[o]
    return Prog(Fn(lambda m, x: f(torch.split(x, k, dim=1))), [torch.randn(s)], f'{len(k)}{o}')


# ------------------------------------------------------------------------------------------------------------ helpers
# operators whose TFLite kernels abort on five dimensions
NO5 = {'eq', 'ne', 'gt', 'ge', 'lt', 'le', 'where', 'logical', 'pow', 'pow_half', 'reduce', 'norm', 'square', 'cube', 'layer_norm', 'prelu'}

SHAPE_HINT = {
    'conv1d': 3, 'conv_transpose1d': 3, 'avg_pool1d': 3, 'max_pool1d': 3, 'conv2d': 4, 'conv_transpose2d': 4, 'avg_pool2d': 4,
    'max_pool2d': 4, 'upsample': 4, 'pixel_shuffle': 4, 'pixel_unshuffle': 4, 'unfold': 4, 'fold': 3, 'conv3d': 5, 'attention': 3,
    't': 2, 'dropout2d': 4,
}


def rand_shape_for(r, name):
    if name == 'pixel_shuffle':
        return [r.choice([1, 2]), r.choice([4, 8, 9, 12]), r.randint(1, 4), r.randint(1, 4)]
    if name == 'pixel_unshuffle':
        return [r.choice([1, 2]), r.choice([1, 2, 3]), r.choice([2, 4, 6]), r.choice([2, 4, 6])]
    if name == 'fold':
        h, w, c = r.randint(2, 5), r.randint(2, 5), r.randint(1, 3)
        return [r.choice([1, 2]), c * 4, (h - 1) * (w - 1)]
    h = SHAPE_HINT.get(name)
    if h == 4:
        return img(r)
    if h == 3:
        return [r.choice([1, 2]), r.randint(1, 5), r.randint(3, 9)]
    if h == 5:
        return [1, r.randint(2, 3), r.randint(2, 4), r.randint(2, 4), r.randint(2, 4)]
    if name in ('prelu', 'batch_norm', 'layer_norm', 'instance_norm', 'group_norm', 'adaptive_pool', 'linear'):
        return shape(r, r.choice([2, 3, 4]))
    if name in NO5:
        return shape(r, r.choice([1, 2, 3, 4, 4]))
    return shape(r)


def make_unary(r, name, s=None):
    """A random instance of a unary operator: (module, shape, tag)."""
    if s is not None and len(s) > 4 and name in NO5:
        return None
    for _ in range(60):
        sh = list(s) if s is not None else rand_shape_for(r, name)
        x = UNARY[name](r, sh)
        if x is not None:
            return x[0], sh, x[1]
        if s is not None:
            return None
    return None


def make_binary(r, name, s=None):
    if s is not None and len(s) > 4 and name in NO5:
        return None
    for _ in range(60):
        sh = list(s) if s is not None else rand_shape_for(r, name)
        x = BINARY[name](r, sh)
        if x is not None:
            return x[0], sh, x[1], x[2]
        if s is not None:
            return None
    return None
