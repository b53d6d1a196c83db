"""C11: editing a traced graph rewires exactly what was asked."""
import contextlib
import copy
import io
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402
from vlib import editfns  # noqa: E402

import torch  # noqa: E402
import torch.nn as nn  # noqa: E402

C = core.Check(
    'C11',
    rule='random programs with one statement per graph node; random sequences of edits are applied to the traced graph and to the list of statements; after '
         'each edit the edges are checked at both ends and the order is checked, at the end the generated (or committed) model is executed against an '
         'interpreter of the edited statements; non-trivial when every output was compared on two inputs; distinct by program and edits',
    assumptions=['edits are used within their documented preconditions (connected nodes, one input for removal, shape-preserving insertions)'],
)


class S:
    """One statement: name = op(inputs); inputs are (name, index)."""

    def __init__(self, name, fn, text, args, shapes, mod=None, special=''):
        self.name, self.fn, self.text, self.args, self.shapes, self.mod, self.special = name, fn, text, list(args), shapes, mod, special

    def __repr__(self):
        return f'{self.name} = {self.text}({", ".join(a if k is None else f"{a}[{k}]" for a, k in self.args)})'


UNARY_MODS = ['nn.ReLU()', 'nn.Tanh()', 'nn.Linear(4, 4)', 'nn.Sigmoid()', 'nn.LeakyReLU(0.2)', 'nn.Hardtanh(-0.4, 0.6)', 'nn.BatchNorm1d(4)', 'nn.LayerNorm(4)', 'nn.ELU(0.5)', 'nn.Identity()']
UNARY_FNS = {'torch.tanh': 'torch.tanh({0})', 'torch.sigmoid': 'torch.sigmoid({0})', 'torch.relu': 'torch.relu({0})', 'torch.neg': 'torch.neg({0})', 'torch.abs': 'torch.abs({0})',
             'torch.Tensor.sin': '{0}.sin()', 'torch.Tensor.mul': '{0}.mul(1.5)', 'torch.nn.functional.leaky_relu': 'F.leaky_relu({0}, 0.3)', 'torch.clamp': 'torch.clamp({0}, -0.7, 0.9)',
             'torch.Tensor.flip': '{0}.flip(1)', 'torch.nn.functional.softplus': 'F.softplus({0}, beta=2)', 'torch.Tensor.__add__': '{0} + 0.25', 'torch.Tensor.__rsub__': '1.0 - {0}'}
BINARY_FNS = {'torch.add': 'torch.add({0}, {1})', 'torch.mul': 'torch.mul({0}, {1})', 'torch.sub': 'torch.sub({0}, {1})', 'torch.maximum': 'torch.maximum({0}, {1})',
              'torch.Tensor.__add__': '{0} + {1}', 'torch.Tensor.__sub__': '{0} - {1}', 'torch.Tensor.__mul__': '{0} * {1}', 'torch.where': 'torch.lerp({0}, {1}, 0.3)',
              'torch.Tensor.add': '{0}.add({1}, alpha=0.5)', 'torch.addcmul': 'torch.addcmul({0}, {1}, {0})'}
JOIN_FNS = ['torch.stack([{0}, {1}], 0).sum(0)', 'torch.cat([{0}, {1}, {2}], 1)', 'torch.cat(({0}, {1}), 1)', 'torch.stack([{0}, {1}])']
SPLITS = {'torch.chunk': 'torch.chunk({0}, 2, 1)', 'torch.split': 'torch.split({0}, [2, 2], dim=1)', 'torch.Tensor.chunk': '{0}.chunk(2, dim=1)', 'torch.unbind': 'torch.unbind({0}, 0)',
          'torch.sort': 'torch.sort({0}, dim=1)[:1]'}
ENV = {'torch': torch, 'nn': nn, 'F': nn.functional}


def fn_of(template):
    n = max([k for k in range(3) if '{%d}' % k in template]) + 1
    names = [f'a{k}' for k in range(n)]
    return eval(f'lambda {", ".join(names)}: {template.format(*names)}', ENV)


def make(r):
    """Statements over (3, 4) tensors, each of which becomes one node of the traced graph."""
    st, inits, k = [], [], 0
    nin = r.choice([1, 1, 2])
    env = [(f'x{j}', None) for j in range(nin)]
    if r.random() < 0.3:
        inits.append(f'self.weight = nn.Parameter({torch.randn(3, 4).tolist()!r} if False else torch.randn(3, 4))')
        env.append(('self.weight', None))
    mods = []
    for _ in range(r.choice([2, 4, 6, 9])):
        k += 1
        u = r.random()
        pick = lambda: r.choice(env[-4:]) if r.random() < 0.7 else r.choice(env)
        if u < 0.4:
            if mods and r.random() < 0.25:
                m, text = r.choice(mods)
            else:
                text = r.choice(UNARY_MODS[:-1])  # an identity on a parameter is the parameter
                m = f'm{k}' if r.random() < 0.7 else f'seq{k}[0]'
                inits.append(f'self.m{k} = {text}' if m[0] == 'm' else f'self.seq{k} = nn.Sequential({text})')
                mods.append((m, text))
            st.append(S(f'v{k}', None, f'self.{m}', [pick()], 1, m))
        elif u < 0.62:
            t = r.choice(list(UNARY_FNS.values()))
            st.append(S(f'v{k}', fn_of(t), t, [pick()], 1))
        elif u < 0.88:
            t = r.choice(list(BINARY_FNS.values()))
            a = pick()
            b = a if r.random() < 0.15 else pick()
            if a[0].startswith('self.') and b[0].startswith('self.'):
                a = (f'x{r.randrange(nin)}', None)
            st.append(S(f'v{k}', fn_of(t), t, [a, b], 1))
        else:
            t = r.choice(['torch.chunk({0}, 2, 1)', 'torch.split({0}, [2, 2], dim=1)', '{0}.chunk(2, dim=1)', 'torch.tensor_split({0}, 2, dim=1)'])
            a = pick()
            st.append(S(f'v{k}', fn_of(t), t, [a], 2))
            k += 1
            t = 'torch.cat([{0}, {1}], 1)'
            i, j = r.choice([(0, 1), (1, 0), (0, 0)])
            st.append(S(f'v{k}', fn_of(t), t, [(f'v{k - 1}', i), (f'v{k - 1}', j)], 1))
        env.append((st[-1].name, None))
    used = {a for s in st for a, _ in s.args}
    free = [s.name for s in st if s.name not in used and s.shapes == 1]
    outs = free + [s.name for s in st if s.name in used and s.shapes == 1 and r.random() < 0.2]
    r.shuffle(outs)
    return st, inits, nin, [(o, None) for o in outs]


def render(a):
    return a[0] if a[1] is None else f'{a[0]}[{a[1]}]'


def source(st, inits, nin, outs):
    src = 'class M(nn.Module):\n    def __init__(self):\n        super().__init__()\n'
    src += ''.join(f'        {x}\n' for x in inits)
    src += f'    def forward(self, {", ".join(f"x{j}" for j in range(nin))}):\n'
    for s in st:
        src += f'        {s.name} = ' + (f'{s.text}({render(s.args[0])})' if s.mod else s.text.format(*[render(a) for a in s.args])) + '\n'
    return src + f'        return {", ".join(render(o) for o in outs)}\n'


def interpret(st, outs, model, xs, extra):
    env = {f'x{j}': x for j, x in enumerate(xs)}
    if hasattr(model, 'weight'):
        env['self.weight'] = model.weight
    env.update(extra)

    def get(a):
        return env[a[0]] if a[1] is None else env[a[0]][a[1]]

    for s in st:
        if s.mod is not None:
            m = s.mod if isinstance(s.mod, nn.Module) else eval(f'model.{s.mod}', {'model': model})
            env[s.name] = m(get(s.args[0]))
        else:
            env[s.name] = s.fn(*[get(a) for a in s.args])
    return [get(o) for o in outs]


def quietly(f, *a, **kw):
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


class Broken(BaseException):
    pass


def consistent(ctx, g, what):
    """Edges at both ends, order, names, tensors."""
    every = list(g.input_nodes) + list(g.constant_nodes) + list(g.forward_nodes) + list(g.output_nodes)
    names = [n.unique_name for n in every]
    ids = {id(n) for n in every}
    if len(set(names)) != len(names):
        ctx.violation('graph/names', f'{what}: two nodes have one name: {names}')
        raise Broken
    pos = {id(n): k for k, n in enumerate(list(g.input_nodes) + list(g.constant_nodes) + list(g.forward_nodes) + list(g.output_nodes))}
    for n in every:
        for p in n.prev_nodes:
            if id(p) not in ids:
                ctx.violation('graph/unknown-producer', f'{what}: the producer {p.unique_name} of {n.unique_name} is not a node of the graph')
                raise Broken
            if not any(q is n for q in p.next_nodes):
                ctx.violation('graph/missing-consumer', f'{what}: {n.unique_name} uses {p.unique_name}, which does not list it as a consumer: {[q.unique_name for q in p.next_nodes]}')
                raise Broken
            if pos[id(p)] >= pos[id(n)]:
                ctx.violation('graph/order', f'{what}: {n.unique_name} comes before its producer {p.unique_name}')
                raise Broken
        for q in n.next_nodes:
            if id(q) not in ids:
                ctx.violation('graph/unknown-consumer', f'{what}: the consumer {getattr(q, "unique_name", q)} of {n.unique_name} is not a node of the graph')
                raise Broken
            if not any(p is n for p in q.prev_nodes):
                ctx.violation('graph/missing-producer', f'{what}: {n.unique_name} lists {q.unique_name} as a consumer, which does not use it: {[p.unique_name for p in q.prev_nodes]}')
                raise Broken
        produced = [id(t) for p in n.prev_nodes for nt in p.next_tensors for t in (nt if isinstance(nt, (list, tuple)) else [nt])]
        for t in n.prev_tensors:
            for u in (t if isinstance(t, (list, tuple)) else [t]):
                if id(u) not in produced and not any(u is v for p in n.prev_nodes for v in p.next_tensors):
                    ctx.violation('graph/tensor', f'{what}: a tensor that {n.unique_name} reads is not produced by its producers {[p.unique_name for p in n.prev_nodes]}')
                    raise Broken
        if g.nodes_map.get(n.unique_name) is not n:
            ctx.violation('graph/map', f'{what}: {n.unique_name} is not in the map of nodes')
            raise Broken
    for k in g.nodes_map:
        if k not in set(names):
            ctx.violation('graph/map', f'{what}: {k} is still in the map of nodes')
            raise Broken
    ctx.count('graphs_checked')
    ctx.count('edges_checked', sum(len(n.prev_nodes) for n in every))


class Editor:
    def __init__(self, ctx, g, st, outs, nin, model, inplace=False):
        self.ctx, self.g, self.st, self.outs, self.nin, self.model, self.inplace = ctx, g, st, outs, nin, model, inplace
        fw = [n for n in g.forward_nodes]
        self.node = {s.name: n for s, n in zip(st, fw)}
        for j, n in enumerate(g.input_nodes):
            self.node[f'x{j}'] = n
        for n in g.constant_nodes:
            self.node['self.weight'] = n
        self.out_nodes = list(g.output_nodes)
        self.k = 0
        self.log = []

    def new_module(self, r, shape_preserving=True):
        self.k += 1
        text = r.choice(['nn.ReLU()', 'nn.Tanh()', 'nn.LeakyReLU(0.3)', 'nn.Hardtanh(-0.5, 0.5)', 'nn.Softsign()', 'nn.Linear(4, 4)', 'nn.BatchNorm1d(4)'])
        m = eval(text, ENV)
        m.eval()
        self.g.module_unique_name_dict[id(m)] = f'edit_{self.k}'
        self.g.module_original_name_dict[id(m)] = f'edit_{self.k}'
        return m, text

    def new_thing(self, r, t, plain=False):
        """(module or traced function, tensor it makes, statement maker)

        A function made after tracing on the data of a parameter would be given a constant of its own."""
        from tinynn.graph.tracer import TraceFunction, override_current_trace_graph
        if r.random() < 0.6 or plain:
            m, text = self.new_module(r)
            if t is not None and t.shape[1] != 4 and not text.startswith(('nn.ReLU', 'nn.Tanh', 'nn.Leaky', 'nn.Hard', 'nn.Soft')):
                m, text = nn.Tanh(), 'nn.Tanh()'
                self.g.module_unique_name_dict[id(m)] = f'edit_{self.k}'
                self.g.module_original_name_dict[id(m)] = f'edit_{self.k}'
            return m, None, (lambda name, args: S(name, None, text, args, 1, m)), text
        self.k += 1
        full, fn, args = r.choice([('torch.tanh', torch.tanh, ()), ('torch.nn.functional.relu', nn.functional.relu, ()), ('torch.Tensor.sin', torch.Tensor.sin, ()),
                                   ('torch.Tensor.mul', torch.Tensor.mul, (2.5,)), ('torch.clamp', torch.clamp, (-0.3, 0.8))])
        with override_current_trace_graph(self.g):
            tf = TraceFunction(full, full.startswith('torch.Tensor'), prefix=f'e{self.k}_').parse_args(t, *args)
        return tf, fn(t, *args), (lambda name, a: S(name, lambda x: fn(x, *args), full + str(args), a, 1)), full

    # -- edits -------------------------------------------------------------------------------------------------------
    def edit(self, r):
        kind = r.choice(['after', 'after', 'between', 'between', 'before', 'remove', 'replace', 'replace', 'fuse', 'output', 'update'])
        return getattr(self, 'do_' + kind)(r)

    def consumers(self, name):
        return [s for s in self.st if any(a == name for a, _ in s.args)]

    def insert_stmt(self, pos, s):
        self.st.insert(pos, s)

    def index(self, name):
        return next((k for k, s in enumerate(self.st) if s.name == name), -1)

    def do_after(self, r):
        cand = [s.name for s in self.st if s.shapes == 1] + [f'x{j}' for j in range(self.nin)] + (['self.weight'] if 'self.weight' in self.node else [])
        cand = [c for c in cand if self.node[c].next_nodes]
        if not cand:
            return None
        name = r.choice(cand)
        n = self.node[name]
        thing, out, mk, text = self.new_thing(r, n.next_tensors[0], name.startswith('self.'))
        new = f'e{self.k}'
        self.log.append(f'{new} = {text} after {name}')
        quietly(self.g.insert_after, n, thing, *([[out]] if out is not None else []))
        s = mk(new, [(name, None)])
        for c in self.st:
            c.args = [(new, k) if a == name else (a, k) for a, k in c.args]
        self.outs = [(new, k) if a == name else (a, k) for a, k in self.outs]
        self.insert_stmt(self.index(name) + 1, s)
        self.note(new, thing)
        return 'insert_after'

    def note(self, new, thing):
        found = [n for n in self.g.forward_nodes if n.module is thing]
        if len(found) != 1:
            self.ctx.violation('graph/inserted', f'{self.log[-1]}: the graph has {len(found)} nodes for it')
            raise Broken
        self.node[new] = found[0]

    def do_between(self, r):
        edges = [(a, k, s) for s in self.st for a, k in s.args if not (self.node[a].module.__class__.__name__ == 'ConstantNode')]
        if not edges:
            return None
        a, idx, s = r.choice(edges)
        others = {k for b, k in s.args if b == a}
        if len(others) > 1:  # two results of one node: select one by its tensor
            return None
        if sum(1 for b, k in s.args if b == a) > 1:
            return None
        prev, nxt = self.node[a], self.node[s.name]
        t = prev.next_tensors[0] if idx is None else (prev.next_tensors[0][idx] if isinstance(prev.next_tensors[0], (list, tuple)) else prev.next_tensors[idx])
        thing, out, mk, text = self.new_thing(r, t)
        new = f'e{self.k}'
        self.log.append(f'{new} = {text} between {render((a, idx))} and {s.name}')
        quietly(self.g.insert_between, prev, nxt, thing, *([[out]] if out is not None else []), move_idx=True)
        q = mk(new, [(a, idx)])
        s.args = [(new, None) if (b, k) == (a, idx) else (b, k) for b, k in s.args]
        self.insert_stmt(self.index(s.name), q)
        self.note(new, thing)
        return 'insert_between'

    def do_before(self, r):
        cand = [s for s in self.st if len(s.args) == 1]
        u = r.random()
        if u < 0.3 and self.out_nodes:
            k = r.randrange(len(self.outs))
            n = self.out_nodes[k]
            a, idx = self.outs[k]
            if a.startswith(('x', 'self')):
                return None
            thing, out, mk, text = self.new_thing(r, n.prev_tensors[0])
            new = f'e{self.k}'
            self.log.append(f'{new} = {text} before output {k}')
            quietly(self.g.insert_before, n, thing, *([[out]] if out is not None else []), move_idx=True)
            self.outs[k] = (new, None)
            self.insert_stmt(len(self.st), mk(new, [(a, idx)]))
        else:
            if not cand:
                return None
            s = r.choice(cand)
            n = self.node[s.name]
            a, idx = s.args[0]
            thing, out, mk, text = self.new_thing(r, n.prev_tensors[0], a.startswith('self.'))
            new = f'e{self.k}'
            self.log.append(f'{new} = {text} before {s.name}')
            quietly(self.g.insert_before, n, thing, *([[out]] if out is not None else []), move_idx=True)
            s.args = [(new, None)]
            self.insert_stmt(self.index(s.name), mk(new, [(a, idx)]))
        self.note(new, thing)
        return 'insert_before'

    def do_remove(self, r):
        cand = [s for s in self.st if len(s.args) == 1 and s.shapes == 1 and not s.args[0][0].startswith('self.') and not (s.args[0][0].startswith('x') and any(o[0] == s.name for o in self.outs))]
        cand = [s for s in cand if tuple(self.node[s.name].prev_tensors[0].shape) == tuple(self.node[s.name].next_tensors[0].shape)]
        if not cand:
            return None
        s = r.choice(cand)
        self.log.append(f'remove {s.name}')
        quietly(self.g.remove_node, self.node[s.name])
        a = s.args[0]
        for c in self.st:
            c.args = [a if b == s.name else (b, k) for b, k in c.args]
        self.outs = [a if b == s.name else (b, k) for b, k in self.outs]
        self.st.remove(s)
        return 'remove'

    def do_replace(self, r):
        cand = [s for s in self.st if len(s.args) == 1 and s.shapes == 1 and tuple(self.node[s.name].prev_tensors[0].shape) == (3, 4)]
        # a module that is used twice is replaced at one of the uses
        if not cand:
            return None
        s = r.choice(cand)
        n = self.node[s.name]
        m, text = self.new_module(r)
        self.log.append(f'replace {s.name} with {text}')
        quietly(self.g.replace_node_module, n, m)
        s.mod, s.fn, s.text = m, None, text
        return 'replace'

    def do_fuse(self, r):
        """add + relu, mul + tanh + relu and sub + abs become one function."""
        for s in r.sample(self.st, len(self.st)):
            if not (len(s.args) == 2 and s.text in ('torch.add({0}, {1})', 'torch.sub({0}, {1})', 'torch.mul({0}, {1})')):
                continue
            want = {'torch.add({0}, {1})': (['torch.relu({0})'], 'add_relu'), 'torch.sub({0}, {1})': (['torch.abs({0})'], 'sub_abs'),
                    'torch.mul({0}, {1})': (['torch.tanh({0})', 'torch.relu({0})'], 'mul_tanh_relu')}[s.text]
            chain, cur = [s], s
            for t in want[0]:
                nx = self.consumers(cur.name)
                if len(nx) != 1 or nx[0].text != t or any(o[0] == cur.name for o in self.outs):
                    break
                cur = nx[0]
                chain.append(cur)
            else:
                self.log.append(f'fuse {[c.name for c in chain]}')
                quietly(self.g.fuse_nodes_to_func, [self.node[c.name] for c in chain], f'vlib.editfns.{want[1]}', want[1], want[1], False)
                last = chain[-1].name
                for c in self.st:
                    c.args = [(s.name, k) if a == last else (a, k) for a, k in c.args]
                self.outs = [(s.name, k) if a == last else (a, k) for a, k in self.outs]
                for c in chain[1:]:
                    self.st.remove(c)
                s.fn, s.text = getattr(editfns, want[1]), want[1]
                return 'fuse'
        return None

    def do_output(self, r):
        """One more output."""
        cand = [s for s in self.st if s.shapes == 1]
        if not cand or r.random() < 0.5:
            return None
        s = r.choice(cand)
        self.log.append(f'output {s.name}')
        quietly(self.g.add_outputs_for_tensors, [self.node[s.name].next_tensors[0]])
        self.outs.append((s.name, None))
        self.out_nodes = list(self.g.output_nodes)
        return 'add_output'

    def do_update(self, r):
        """Replaces a submodule of the model where the model keeps it; every use is affected."""
        cand = [s for s in self.st if isinstance(s.mod, str)]
        if not cand or not self.inplace:
            return None
        s = r.choice(cand)
        m, text = self.new_module(r)
        uses = [q for q in self.st if q.mod == s.mod]
        self.log.append(f'update {s.mod} with {text}')
        quietly(self.g.update_submodule_in_node, self.node[s.name], m, True)
        for q in uses:
            q.mod = m
        return 'update'


def plan(ctx, r):
    for _ in range(30):
        st, inits, nin, outs = make(r)
        if not outs or len({a for s in st for a, _ in s.args if a.startswith('x')}) < nin:
            continue
        return st, inits, nin, outs
    ctx.skip('no program')


def traced(ctx, r, ctor):
    st, inits, nin, outs = plan(ctx, r)
    src = source(st, inits, nin, outs)
    ctx.desc = src
    ns = dict(ENV)
    exec(src, ns)
    from tinynn.graph.tracer import trace
    model = ns['M']().eval()
    xs = [torch.randn(3, 4) for _ in range(nin)]
    try:
        g = quietly(trace, model, xs)
    except SystemExit:
        ctx.violation('trace', 'tracing failed')
        raise Broken from None
    if len(g.forward_nodes) != len(st) or len(g.output_nodes) != len(outs) or len(g.input_nodes) != nin:
        raise RuntimeError(f'unexpected number of nodes: {[n.unique_name for n in g.forward_nodes]} for {src}')
    return g, st, inits, nin, outs, src, model


def compare(ctx, got, want, what):
    if isinstance(got, torch.Tensor):
        got = [got]
    got = list(got)
    if len(got) != len(want):
        ctx.violation('outputs', f'{what}: {len(got)} outputs instead of {len(want)}')
        raise Broken
    for k, (a, b) in enumerate(zip(got, want)):
        if a.shape != b.shape or not torch.allclose(a, b, rtol=1e-5, atol=1e-6):
            ctx.violation('outputs', f'{what}: output {k} differs by {float((a - b).abs().max()) if a.shape == b.shape else (a.shape, b.shape)}')
            raise Broken
    ctx.count('outputs_compared', len(want))


def load(g, name):
    quietly(g.generate_code, f'{name}.py', f'{name}.pth', 'Gen')
    from tinynn.util.util import import_from_path
    G = import_from_path(f'gen_{name}_{os.getpid()}', f'{name}.py', 'Gen')
    m = G()
    m.load_state_dict(torch.load(f'{name}.pth'))
    return m.eval()


def body(name):
    t = open(f'{name}.py').read()
    return t[t.find('    def forward'):t.find('if __name__')]


@C.family('edits', quick=1600, chunk=50)
def _edits(ctx, i):
    r = ctx.rng
    torch.manual_seed(r.randrange(10 ** 6))
    try:
        g, st, inits, nin, outs, src, model = traced(ctx, r, False)
        inplace = r.random() < 0.4
        consistent(ctx, g, 'after tracing')
        ed = Editor(ctx, g, st, list(outs), nin, model, inplace)
        ref = copy.deepcopy(model)
        did = []
        for _ in range(r.choice([1, 1, 2, 3, 5, 8])):
            ctx.desc = src + '\n'.join(ed.log)
            with ctx.sut('edit', 'an edit'):
                k = ed.edit(r)
                if k:
                    quietly(g.recompute_forward_order)
            if not k:
                continue
            ctx.desc = src + '\n'.join(ed.log)
            did.append(k)
            ctx.count(f'edits {k}')
            consistent(ctx, g, ed.log[-1])
        if not did:
            ctx.skip('no edit applies')
        # modules that edits put into the statements are shared with the graph, the others come from a copy
        data = [[torch.randn(3, 4) for _ in range(nin)] for _ in range(2)]
        want = [interpret(ed.st, ed.outs, ref, x, {}) for x in data]
        if inplace:
            with ctx.sut('commit', 'committing in place'):
                m = quietly(g.inplace_commit)
                m.eval()
                for x, w in zip(data, want):
                    compare(ctx, m(*x), w, f'committed, edits {did}')
        else:
            with ctx.sut('generate', 'generating and loading the code'):
                m = load(g, 'gen')
            with ctx.sut('run', f'running the generated code {body("gen")}'):
                for x, w in zip(data, want):
                    compare(ctx, m(*x), w, f'generated, edits {did}\n{body("gen")}')
        ctx.ok(src + str(ed.log), src[src.find('def forward'):] + '; '.join(ed.log))
    except Broken:
        pass


def choose_part(r, st, by):
    """Outputs, and the nodes where the walk back from them is cut."""
    single = [s.name for s in st if s.shapes == 1]
    if len(single) < 2:
        return None
    ends = r.sample(single, min(len(single) - 1, r.choice([1, 1, 2])))
    starts, seen, stack = [], set(), list(ends)
    while stack:
        n = stack.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.startswith('self.'):
            continue
        cut = n not in ends and r.random() < 0.35
        if n in by and not cut and any(a.startswith('x') or a.startswith('self') for a, _ in by[n].args):
            cut = True
        if cut:
            starts.append(n)
            continue
        stack += [a for a, _ in by[n].args]
    starts = list(dict.fromkeys(starts))
    if set(starts) & set(ends) or not starts or any(a.startswith('self.') for s in starts for a, _ in by[s].args):
        return None
    if set(ends) & {a for s in starts for a, _ in by[s].args}:
        return None  # the input of a part would also be its result
    return starts, ends


@C.family('subgraph', quick=500, chunk=50)
def _subgraph(ctx, i):
    """The part of a graph between chosen nodes computes the same intermediate values as the whole."""
    r = ctx.rng
    torch.manual_seed(r.randrange(10 ** 6))
    try:
        g, st, inits, nin, outs, src, model = traced(ctx, r, False)
        by = {s.name: s for s in st}
        node = {s.name: n for s, n in zip(st, g.forward_nodes)}
        for _ in range(15):
            part = choose_part(r, st, by)
            if part is not None:
                break
        else:
            ctx.skip('no such part')
        starts, ends = part
        # an end may also lie before another end, and a start before another start
        ctx.desc = src + f'\nfrom {starts} to {ends}'
        inputs_of = []
        for s in starts:  # one input per tensor that a start node reads; a repeated operand may count once
            args = [by[s].args[int(k)] for k in re.findall(r'\{(\d)\}', by[s].text)] if by[s].mod is None else list(by[s].args)
            inputs_of += args if len(node[s].prev_tensors) == len(args) else list(dict.fromkeys(args))
        full = copy.deepcopy(model)
        with ctx.sut('subgraph', f'extracting from {starts} to {ends}'):
            quietly(g.reset_input_output_for_graph, [node[s].unique_name for s in starts], [node[e].unique_name for e in ends])
        consistent_sub(ctx, g)
        with ctx.sut('generate', 'generating and loading the code'):
            m = load(g, 'sub')
        env = {}
        for rep in range(2):
            xs = [torch.randn(3, 4) for _ in range(nin)]
            env = run_all(st, full, xs)
            need = [env[a] if k is None else env[a][k] for a, k in inputs_of]
            with ctx.sut('run', f'running the generated code {body("sub")}'):
                compare(ctx, m(*need), [env[e] for e in ends], f'part from {starts} to {ends}\n{body("sub")}')
        ctx.ok(src + str((starts, ends)), ctx.desc[ctx.desc.find('def forward'):])
    except Broken:
        pass


def consistent_sub(ctx, g):
    live = {id(n) for n in list(g.input_nodes) + list(g.constant_nodes) + list(g.forward_nodes) + list(g.output_nodes)}
    for n in list(g.forward_nodes) + list(g.output_nodes):
        for p in n.prev_nodes:
            if id(p) not in live:
                ctx.violation('part/producer', f'{n.unique_name} reads {p.unique_name}, which is not in the part')
                raise Broken
    ctx.count('graphs_checked')


def run_all(st, model, xs):
    env = {f'x{j}': x for j, x in enumerate(xs)}
    if hasattr(model, 'weight'):
        env['self.weight'] = model.weight
    for s in st:
        args = [env[a] if k is None else env[a][k] for a, k in s.args]
        env[s.name] = eval(f'model.{s.mod}', {'model': model})(*args) if s.mod else s.fn(*args)
    return env


if __name__ == '__main__':
    sys.exit(C.main())
