"""Random networks with a record of which channel of which layer every channel comes from.

Every channel of every tensor is a set of sources: (layer, output channel) of the layer that makes it, ('in',) for the channels of
the inputs.  Element-wise operations join the sources of both sides; joined sources must be removed together or not at all.
"""
import torch
import torch.nn as nn


class T:
    def __init__(self, name, ch, kind, hw=(1, 1), feat=None):
        self.name, self.ch, self.kind, self.hw = name, list(ch), kind, hw  # kind: img (N,C,H,W), vec (N,C), seq (N,T,C)

    @property
    def c(self):
        return len(self.ch)


class Layer:
    def __init__(self, path, kind, fan_in, out, groups=1):
        self.path, self.kind, self.fan_in, self.out, self.groups = path, kind, list(fan_in), out, groups


FIXED = ('in',)


class Gen:
    def __init__(self, r):
        self.r = r
        self.init, self.fwd, self.layers, self.k = [], [], {}, 0
        self.parent = {}
        self.inputs = []
        self.constants = False  # the code contains sizes that pruning must rewrite
        self.inexact = False    # the masked model differs from the pruned one by nature (statistics over channels)
        self.group_note = False

    # union-find
    def find(self, a):
        p = self.parent.setdefault(a, a)
        if p != a:
            p = self.parent[a] = self.find(p)
        return p

    def join(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            if b == FIXED:
                a, b = b, a
            self.parent[b] = a
        return a

    def new(self, mod=None):
        self.k += 1
        if mod:
            self.init.append(f'self.l{self.k} = {mod}')
        return f'l{self.k}'

    def emit(self, call, ch, like, kind=None, hw=None):
        name = f'v{self.k}'
        self.fwd.append(f'{name} = {call}')
        return T(name, ch, kind or like.kind, hw or like.hw)

    def input(self, c, hw, kind='img'):
        t = T(f'x{len(self.inputs)}', [FIXED] * c, kind, hw)
        self.inputs.append(((1, c) + hw) if kind == 'img' else ((1, c) if kind == 'vec' else (1, hw[0], c)))
        return t

    # layers
    def conv(self, t, out=None, k=None, groups=1, bias=None, transpose=False, stride=1):
        r = self.r
        out = out or r.choice([4, 6, 7, 8, 10, 12])
        k = k or r.choice([1, 1, 3])
        bias = r.random() < 0.7 if bias is None else bias
        pad = k // 2
        p = self.new(f'nn.{"ConvTranspose2d" if transpose else "Conv2d"}({t.c}, {out}, {k}, padding={pad}, stride={stride}, groups={groups}, bias={bias})')
        self.layers[p] = Layer(p, 'deconv' if transpose else 'conv', t.ch, out, groups)
        if groups > 1:
            self.group_note = True
        h, w = t.hw
        hw = (h, w) if stride == 1 else (((h - 1) // stride + 1, (w - 1) // stride + 1) if not transpose else ((h - 1) * stride + k - 2 * pad, (w - 1) * stride + k - 2 * pad))
        return self.emit(f'self.{p}({t.name})', [(p, i) for i in range(out)], t, hw=hw)

    def depthwise(self, t, k=3):
        p = self.new(f'nn.Conv2d({t.c}, {t.c}, {k}, padding={k // 2}, groups={t.c}, bias={self.r.random() < 0.6})')
        self.layers[p] = Layer(p, 'dw', t.ch, t.c)
        return self.emit(f'self.{p}({t.name})', t.ch, t)

    def norm(self, t):
        kind = {'img': 'BatchNorm2d', 'vec': 'BatchNorm1d'}[t.kind]
        p = self.new(f'nn.{kind}({t.c})' if self.r.random() < 0.85 else f'nn.{kind}({t.c}, affine=False)')
        self.layers[p] = Layer(p, 'bn', t.ch, t.c)
        return self.emit(f'self.{p}({t.name})', t.ch, t)

    def layernorm(self, t):
        p = self.new(f'nn.LayerNorm({t.c})' if self.r.random() < 0.85 else f'nn.LayerNorm({t.c}, elementwise_affine=False)')
        self.layers[p] = Layer(p, 'ln', t.ch, t.c)
        self.inexact = True
        return self.emit(f'self.{p}({t.name})', t.ch, t)

    def prelu(self, t):
        if self.r.random() < 0.2:
            p = self.new('nn.PReLU()')
            return self.emit(f'self.{p}({t.name})', t.ch, t)
        p = self.new(f'nn.PReLU({t.c})')
        self.layers[p] = Layer(p, 'prelu', t.ch, t.c)
        return self.emit(f'self.{p}({t.name})', t.ch, t)

    def act(self, t):
        a = self.r.choice(['nn.ReLU()', 'nn.ReLU6()', 'nn.LeakyReLU(0.2)', 'nn.Sigmoid()', 'nn.Tanh()', 'nn.Hardswish()', 'nn.SiLU()', 'F.relu', 'torch.tanh', 'F.hardswish', 'nn.ELU()', 'nn.Dropout(0.3)'])
        if a.startswith('nn'):
            p = self.new(a)
            return self.emit(f'self.{p}({t.name})', t.ch, t)
        self.new()
        return self.emit(f'{a}({t.name})', t.ch, t)

    def pool(self, t):
        r = self.r
        a = r.choice(['nn.MaxPool2d(2)', 'nn.AvgPool2d(2)', 'nn.MaxPool2d(3, 1, 1)', 'F.max_pool2d({0}, 2)', 'nn.Upsample(scale_factor=2)', 'F.interpolate({0}, scale_factor=2.0)', 'nn.AvgPool2d(3, stride=1, padding=1)', 'F.adaptive_avg_pool2d({0}, 2)'])
        h, w = t.hw
        if min(h, w) < 4 and '2)' in a:
            a = 'nn.MaxPool2d(3, 1, 1)'
        hw = (2, 2) if 'adaptive' in a else ((h * 2, w * 2) if 'Up' in a or 'interp' in a else ((h, w) if '1' in a.replace('2d', '') else (h // 2, w // 2)))
        if a.startswith('nn'):
            p = self.new(a)
            return self.emit(f'self.{p}({t.name})', t.ch, t, hw=hw)
        self.new()
        return self.emit(a.format(t.name), t.ch, t, hw=hw)

    def pad(self, t):
        self.new()
        v = [self.r.choice([0, 1]) for _ in range(4)]
        return self.emit(f'F.pad({t.name}, {v})', t.ch, t, hw=(t.hw[0] + v[2] + v[3], t.hw[1] + v[0] + v[1]))

    def binary(self, a, b):
        op = self.r.choice(['{0} + {1}', 'torch.add({0}, {1})', '{0} * {1}', '{0} - {1}', 'torch.mul({0}, {1})', 'torch.maximum({0}, {1})'])
        self.new()
        ch = []
        for x, y in zip(a.ch, b.ch):
            ch.append(self.join(x, y))
        return self.emit(op.format(a.name, b.name), ch, a)

    def cat(self, ts):
        self.new()
        form = self.r.choice(['torch.cat([{}], 1)', 'torch.cat([{}], dim=1)', 'torch.cat(({}), 1)'])
        if form.startswith('torch.cat(('):
            form = 'torch.cat(({},), 1)'
        return self.emit(form.format(', '.join(t.name for t in ts)), [c for t in ts for c in t.ch], ts[0])

    def cat_last(self, ts):
        self.new()
        form = self.r.choice(['torch.cat([{}], -1)', 'torch.cat([{}], dim=%d)' % (2 if ts[0].kind == 'seq' else 1)])
        return self.emit(form.format(', '.join(t.name for t in ts)), [c for t in ts for c in t.ch], ts[0])

    def scale(self, t):
        self.new()
        return self.emit(self.r.choice([f'{t.name} * 0.5', f'{t.name} + 1.0', f'torch.clamp({t.name}, -1.0, 1.0)', f'{t.name}.neg()']), t.ch, t)

    def split(self, t, n=2, equal=False):
        """equal: the parts are joined element-wise, so that they lose the same channels and stay equally large"""
        self.new()
        base = f'v{self.k}'
        c = t.c // n
        form = self.r.choice(['chunk', 'splitn', 'splitl', 'shape']) if equal else 'splitl'
        call = {'chunk': f'torch.chunk({t.name}, {n}, 1)', 'splitn': f'torch.split({t.name}, {c}, 1)', 'splitl': f'torch.split({t.name}, [{", ".join([str(c)] * n)}], 1)',
                'shape': f'torch.split({t.name}, {t.name}.shape[1] // {n}, 1)'}[form]
        self.constants = self.constants or form in ('splitn', 'splitl')
        names = [f'{base}_{j}' for j in range(n)]
        self.fwd.append(f'{", ".join(names)} = {call}')
        return [T(names[j], t.ch[j * c:(j + 1) * c], t.kind, t.hw) for j in range(n)]

    def shuffle(self, t):
        """PixelShuffle"""
        p = self.new('nn.PixelShuffle(2)')
        ch = []
        for c in range(t.c // 4):
            a = t.ch[4 * c]
            for b in t.ch[4 * c + 1:4 * c + 4]:
                a = self.join(a, b)
            ch.append(a)
        return self.emit(f'self.{p}({t.name})', ch, t, hw=(t.hw[0] * 2, t.hw[1] * 2))

    def flatten(self, t):
        self.new()
        n = t.hw[0] * t.hw[1]
        form = self.r.choice(['torch.flatten({0}, 1)', '{0}.flatten(1)', '{0}.view({0}.shape[0], -1)', '{0}.reshape(1, -1)', '{0}.view(-1, %d)' % (n * t.c), '{0}.reshape(-1, %d)' % (n * t.c), '{0}.reshape([1, %d])' % (n * t.c),
                              'torch.reshape({0}, (1, %d))' % (n * t.c), '{0}.view(1, %d)' % (n * t.c)])
        if str(n * t.c) in form:
            self.constants = True
        return self.emit(form.format(t.name), [c for c in t.ch for _ in range(n)], t, 'vec', (1, 1))

    def squeeze_mean(self, t):
        self.new()
        form = self.r.choice(['{0}.mean([2, 3])', '{0}.sum([2, 3]) * 0.1', 'torch.sum({0}, dim=(2, 3))',  'torch.mean({0}, [2, 3])', '{0}.mean(3).mean(2)', 'F.adaptive_avg_pool2d({0}, 1).flatten(1)'])
        return self.emit(form.format(t.name), t.ch, t, 'vec', (1, 1))

    def linear(self, t, out=None, bias=None):
        out = out or self.r.choice([4, 5, 6, 8, 10])
        p = self.new(f'nn.Linear({t.c}, {out}, bias={self.r.random() < 0.7 if bias is None else bias})')
        self.layers[p] = Layer(p, 'linear', t.ch, out)
        return self.emit(f'self.{p}({t.name})', [(p, i) for i in range(out)], t)

    def rnn(self, t):
        r = self.r
        kind = r.choice(['LSTM', 'GRU', 'RNN'])
        bi = r.random() < 0.4
        nl = r.choice([1, 1, 2])
        h = r.choice([4, 6, 8])
        p = self.new(f'nn.{kind}({t.c}, {h}, num_layers={nl}, bidirectional={bi}, batch_first=True, bias={r.random() < 0.8})')
        self.layers[p] = Layer(p, 'rnn', t.ch, h * (2 if bi else 1))
        self.layers[p].bi, self.layers[p].nl, self.layers[p].h = bi, nl, h
        self.layers[p].gates = {'LSTM': 4, 'GRU': 3, 'RNN': 1}[kind]
        name = f'v{self.k}'
        self.fwd.append(f'{name}, _ = self.{p}({t.name})')
        return T(name, [(p, i) for i in range(h * (2 if bi else 1))], t.kind, t.hw)

    def source(self, outs):
        src = 'class M(nn.Module):\n    def __init__(self):\n        super().__init__()\n'
        src += ''.join(f'        {x}\n' for x in self.init)
        src += f'    def forward(self, {", ".join(f"x{j}" for j in range(len(self.inputs)))}):\n'
        src += ''.join(f'        {x}\n' for x in self.fwd)
        return src + f'        return {", ".join(o.name for o in outs)}\n'

    def build(self, outs):
        ns = {'nn': nn, 'torch': torch, 'F': nn.functional}
        self.src = self.source(outs)
        exec(self.src, ns)
        m = ns['M']()
        for mod in m.modules():
            if isinstance(mod, (nn.BatchNorm2d, nn.BatchNorm1d)):
                mod.running_mean.normal_()
                mod.running_var.uniform_(0.5, 2.0)
                if mod.affine:
                    nn.init.normal_(mod.weight)
                    nn.init.normal_(mod.bias)
            elif isinstance(mod, nn.LayerNorm) and mod.elementwise_affine:
                nn.init.normal_(mod.weight)
                nn.init.normal_(mod.bias)
            elif isinstance(mod, nn.PReLU):
                nn.init.uniform_(mod.weight)
            elif isinstance(mod, (nn.Conv2d, nn.ConvTranspose2d, nn.Linear)):
                nn.init.normal_(mod.weight, std=(1.5 / max(1, mod.weight[0].numel() ** 0.5)))
        return m.eval()


# -- recovering what was kept --------------------------------------------------------------------------------------------
class NotASlice(Exception):
    pass


class NothingLeft(Exception):
    pass


def kept_of(new, old, what):
    """The indices of the values of a vector in the original vector, which must be in order."""
    pos = {}
    for i, v in enumerate(old.tolist()):
        pos.setdefault(v, []).append(i)
    out = []
    for v in new.tolist():
        if v not in pos:
            raise NotASlice(f'{what}: {v} is not among the original values')
        out.append(pos[v][0])
    if out != sorted(set(out)):
        raise NotASlice(f'{what}: the kept entries {out} are not in order')
    return out


def kept_matrix(new, old, what):
    """Rows and columns of a matrix (with optional kernel dimensions) that were kept."""
    if new.numel() == 0:
        raise NothingLeft(what)
    o2, n2 = old.reshape(old.shape[0], old.shape[1], -1)[:, :, 0], new.reshape(new.shape[0], new.shape[1], -1)[:, :, 0]
    pos = {}
    for i, row in enumerate(o2.tolist()):
        for j, v in enumerate(row):
            pos.setdefault(v, []).append((i, j))

    def origin(values, axis, which):
        votes = {}
        for v in values:
            for q in pos.get(v, ()):
                votes[q[axis]] = votes.get(q[axis], 0) + 1
        if not votes:
            raise NotASlice(f'{what}: {which} has no values of the original weights')
        return max(votes, key=votes.get)  # a few values may be equal by chance

    rows = [origin(row, 0, f'row {i}') for i, row in enumerate(n2.tolist())]
    cols = [origin(col, 1, f'column {j}') for j, col in enumerate(n2.T.tolist())]
    if rows != sorted(set(rows)) or cols != sorted(set(cols)):
        raise NotASlice(f'{what}: the kept rows {rows} or columns {cols} are not in order')
    if not torch.equal(new, old[rows][:, cols]):
        raise NotASlice(f'{what}: the weights are not the original ones at rows {rows} and columns {cols}')
    return rows, cols


def _get(model, path):
    return model.get_submodule(path)


def examine(model, orig, g):
    """{layer: (kept inputs, kept outputs)}; raises NotASlice where the layer is no slice of the original layer."""
    kept = {}
    for p, l in g.layers.items():
        m, o = _get(model, p), _get(orig, p)

        def attr(name, want):
            if getattr(m, name) != want:
                raise NotASlice(f'{p}: {name} is {getattr(m, name)} but the weights have {want}')

        def vector(name, idx):
            a, b = getattr(m, name), getattr(o, name)
            if (a is None) != (b is None):
                raise NotASlice(f'{p}: {name} appeared or disappeared')
            if a is not None and not torch.equal(a, b[idx]):
                raise NotASlice(f'{p}: {name} is not the original one at the kept channels {idx}')

        if l.kind in ('conv', 'linear') and l.groups == 1:
            rows, cols = kept_matrix(m.weight, o.weight, p)
            vector('bias', rows)
            if l.kind == 'conv':
                attr('in_channels', len(cols)), attr('out_channels', len(rows)), attr('groups', 1)
            else:
                attr('in_features', len(cols)), attr('out_features', len(rows))
            kept[p] = (cols, rows)
        elif l.kind == 'deconv':
            rows, cols = kept_matrix(m.weight, o.weight, p)
            vector('bias', cols)
            attr('in_channels', len(rows)), attr('out_channels', len(cols))
            kept[p] = (rows, cols)
        elif l.kind == 'conv':
            gr = l.groups
            attr('groups', gr)
            oo, ii = o.weight.shape[0] // gr, o.weight.shape[1]
            if m.weight.shape[0] % gr:
                raise NotASlice(f'{p}: {m.weight.shape[0]} output channels for {gr} groups')
            no = m.weight.shape[0] // gr
            cols, rows = [], []
            for j in range(gr):
                a, b = kept_matrix(m.weight[no * j:no * (j + 1)], o.weight[oo * j:oo * (j + 1)], f'{p} group {j}')
                rows += [j * oo + i for i in a]
                cols += [j * ii + i for i in b]
            vector('bias', rows)
            attr('in_channels', len(cols)), attr('out_channels', len(rows))
            kept[p] = (cols, rows)
        elif l.kind == 'dw':
            rows = kept_of(m.weight.reshape(m.weight.shape[0], -1)[:, 0], o.weight.reshape(o.weight.shape[0], -1)[:, 0], p)
            vector('weight', rows), vector('bias', rows)
            attr('groups', len(rows)), attr('in_channels', len(rows)), attr('out_channels', len(rows))
            kept[p] = (rows, rows)
        elif l.kind in ('bn', 'ln', 'prelu'):
            if l.kind == 'ln' and m.weight is None:
                rows = list(range(m.normalized_shape[0]))
                if rows[-1] + 1 != len(l.fan_in):
                    continue  # which channels were kept can't be told
            else:
                rows = kept_of(m.running_var if l.kind == 'bn' else m.weight, o.running_var if l.kind == 'bn' else o.weight, p)
            if l.kind == 'bn':
                vector('weight', rows), vector('bias', rows), vector('running_mean', rows), vector('running_var', rows)
                attr('num_features', len(rows))
            elif l.kind == 'ln':
                vector('bias', rows)
                if tuple(m.normalized_shape) != (len(rows),):
                    raise NotASlice(f'{p}: normalized_shape is {m.normalized_shape} but the weights have {len(rows)}')
            else:
                attr('num_parameters', len(rows))
            kept[p] = (rows, rows)
        elif l.kind == 'rnn':
            kept[p] = examine_rnn(m, o, l, p)
    return kept


def examine_rnn(m, o, l, p):
    cols_in, hid = None, []
    for d in range(2 if l.bi else 1):
        sfx = '_reverse' if d else ''
        h = None
        for k in range(l.nl):
            w, ow = getattr(m, f'weight_ih_l{k}{sfx}'), getattr(o, f'weight_ih_l{k}{sfx}')
            u, ou = getattr(m, f'weight_hh_l{k}{sfx}'), getattr(o, f'weight_hh_l{k}{sfx}')
            n = w.shape[0] // l.gates
            rows, cols = kept_matrix(w[:n], ow[:l.h], f'{p} layer {k}{sfx}')
            full = [j * l.h + i for j in range(l.gates) for i in rows]
            if not torch.equal(w, ow[full][:, cols]):
                raise NotASlice(f'{p}: weight_ih_l{k}{sfx} is not the original one at units {rows} and inputs {cols}')
            if not (u.shape == (len(full), len(rows)) and torch.equal(u, ou[full][:, rows])):
                raise NotASlice(f'{p}: weight_hh_l{k}{sfx} is not the original one at units {rows}')
            for b in ('bias_ih', 'bias_hh'):
                x, y = getattr(m, f'{b}_l{k}{sfx}', None), getattr(o, f'{b}_l{k}{sfx}', None)
                if (x is None) != (y is None) or (x is not None and not torch.equal(x, y[full])):
                    raise NotASlice(f'{p}: {b}_l{k}{sfx} is not the original one at units {rows}')
            if h is not None and rows != h:
                raise NotASlice(f'{p}: layers keep different units {h} and {rows}')
            h = rows
            if k == 0:
                if cols_in is not None and cols != cols_in:
                    raise NotASlice(f'{p}: the directions keep different inputs')
                cols_in = cols
            else:
                hid.append((d, k, cols))
        hid.append((d, None, h))
    outs = []
    for d, k, h in hid:
        if k is None:
            outs += [d * l.h + i for i in h]
    for d, k, c in hid:
        if k is not None and c != outs:
            raise NotASlice(f'{p}: layer {k} reads {c} but the previous layer keeps {outs}')
    n = len(outs) // (2 if l.bi else 1)
    if m.hidden_size != n or m.input_size != len(cols_in):
        raise NotASlice(f'{p}: hidden_size {m.hidden_size} and input_size {m.input_size} for {n} units and {len(cols_in)} inputs')
    return cols_in, outs


def coherent(g, kept):
    """Messages where layers disagree about a source channel."""
    state = {g.find(FIXED): (True, 'the input')}
    msgs = []
    for p, l in g.layers.items():
        if l.kind in ('conv', 'deconv', 'linear', 'rnn'):
            for i in range(l.out):
                a, k = g.find((p, i)), i in set(kept[p][1])
                if a in state and state[a][0] != k:
                    msgs.append(f'output channel {i} of {p} is {"kept" if k else "removed"}, unlike {state[a][1]}')
                state.setdefault(a, (k, f'output channel {i} of {p}'))
    for p, l in g.layers.items():
        if p not in kept:
            continue
        ins = set(kept[p][0])
        for i, a in enumerate(l.fan_in):
            s = state.get(g.find(a))
            if s is not None and (i in ins) != s[0]:
                msgs.append(f'input channel {i} of {p} is {"kept" if i in ins else "removed"}, unlike {s[1]}')
    return msgs, state


def mask_consumers(orig, g, kept):
    """The original model in which every layer ignores the channels that were removed before it."""
    for p, l in g.layers.items():
        if p not in kept:
            continue
        m = _get(orig, p)
        gone = [i for i in range(len(l.fan_in)) if i not in set(kept[p][0])]
        if not gone:
            continue
        with torch.no_grad():
            if l.kind in ('conv', 'linear') and l.groups == 1:
                m.weight[:, gone] = 0
            elif l.kind == 'deconv':
                m.weight[gone] = 0
            elif l.kind == 'conv':
                oo, ii = m.weight.shape[0] // l.groups, m.weight.shape[1]
                for i in gone:
                    m.weight[oo * (i // ii):oo * (i // ii + 1), i % ii] = 0
            elif l.kind == 'rnn':
                for sfx in [''] + (['_reverse'] if l.bi else []):
                    getattr(m, f'weight_ih_l0{sfx}')[:, gone] = 0
        if l.kind == 'rnn':
            pass
    for p, l in g.layers.items():
        if l.kind == 'rnn':  # removed units are ignored by the layer itself
            m = _get(orig, p)
            out = set(kept[p][1])
            with torch.no_grad():
                for d in range(2 if l.bi else 1):
                    sfx = '_reverse' if d else ''
                    gone = [i for i in range(l.h) if d * l.h + i not in out]
                    for k in range(l.nl):
                        getattr(m, f'weight_hh_l{k}{sfx}')[:, gone] = 0
                        if k:
                            getattr(m, f'weight_ih_l{k}{sfx}')[:, [i for i in range(l.out) if i not in out]] = 0
    return orig
