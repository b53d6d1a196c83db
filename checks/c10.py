"""C10: tracing leaves PyTorch and the model as they were, also when it fails, and does not depend on what was traced before."""
import contextlib
import copy
import gc
import hashlib
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402
from vlib import progs, tracing, zoo  # noqa: E402

import torch  # noqa: E402
import torch.nn as nn  # noqa: E402

C = core.Check(
    'C10',
    rule='random programs traced, with failing statements injected into forward passes and constructors; snapshots of every attribute of the modules and '
         'classes of PyTorch, of global modes and of the model are compared before and after; the code generated for a program is compared with the code '
         'generated in fresh processes with other orders and histories; non-trivial when all snapshots were compared; distinct by program text',
    assumptions=['attributes are compared by identity (by equality where the interpreter makes a new object on each access)'],
)
WORKER = os.path.join(core.VERIF, 'vlib', 'trace_worker.py')
N = 30
_world = []


def world():
    if not _world:
        _world.append(tracing.World())
    return _world[0]


def flat(x):
    if isinstance(x, torch.Tensor):
        return [x]
    if isinstance(x, dict):
        x = list(x.values())
    return [t for y in x for t in flat(y)] if isinstance(x, (list, tuple)) else []


def outs(m, inputs, h):
    torch.manual_seed(h)
    try:
        return [o.detach().clone() for o in flat(copy.deepcopy(m)(*[t.clone() for t in inputs]))]
    except Exception as e:
        return type(e).__name__


def alike(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str)
    return len(a) == len(b) and all(x.shape == y.shape and x.dtype == y.dtype and torch.equal(torch.nan_to_num(x), torch.nan_to_num(y)) for x, y in zip(a, b))


class Monitor:
    """Compares PyTorch, modes and (optionally) a model with how they were when it was made."""

    def __init__(self, ctx, model=None, inputs=None, h=0):
        self.ctx, self.model, self.inputs, self.h = ctx, model, inputs, h
        self.w, self.m = world(), tracing.modes()
        if model is not None:
            self.o, self.s = outs(model, inputs, h), zoo.state_of(model)

    def check(self, what, strict_values=True):
        d = self.w.diff()
        self.ctx.count('attributes_compared', len(self.w.snap))
        if d:
            self.ctx.violation('patched', f'{what}: {len(d)} attributes of PyTorch changed, e.g. {d[:8]}')
            # what was left behind would be reported for every later case of this process
            _world.clear()
            return False
        m = tracing.modes()
        d = [k for k in m if m[k] != self.m[k]]
        if d:
            self.ctx.violation('modes', f'{what}: global modes changed: {d}')
            return False
        if self.model is not None:
            s = zoo.state_of(self.model)
            d = [k for k in self.s if self.s[k] != s.get(k)] + [k for k in s if k not in self.s]
            if d:
                self.ctx.violation('model-' + '-'.join(sorted({k.split(':')[0] for k in d})), f'{what}: the model changed: {d[:6]}')
                return False
            if not alike(outs(self.model, self.inputs, self.h), self.o):
                self.ctx.violation('model-outputs', f'{what}: the model computes other outputs')
                return False
        return True


def hook(m, a, o=None):
    return None


def prepare(ctx, hostile, n=None):
    r = ctx.rng
    p = tracing.program_for(ctx.seed, f'{ctx.family}{ctx.index}', hostile=hostile, **({'n': n} if n else {}))
    if p is None:
        ctx.skip('no program')
    return p


def dress(r, m):
    """State that tracing has no business changing."""
    for x in m.modules():
        x.training = r.random() < 0.5
        if r.random() < 0.2:
            r.choice([x.register_forward_hook, x.register_forward_pre_hook])(hook)
    for p in m.parameters():
        p.requires_grad_(r.random() < 0.7)
        if r.random() < 0.2 and p.requires_grad:
            p.grad = torch.ones_like(p)


@contextlib.contextmanager
def caller_modes(r):
    with contextlib.ExitStack() as st:
        if r.random() < 0.3:
            st.enter_context(torch.no_grad())
        if r.random() < 0.1:
            st.enter_context(torch.autograd.set_detect_anomaly(True))
        yield


@C.family('restore', quick=220, chunk=25)
def _restore(ctx, i):
    """Programs that can be traced; two traces and their code are the same."""
    r = ctx.rng
    src, inputs, opts, ctor, h = prepare(ctx, r.random() < 0.5)
    ctx.desc = src
    torch.manual_seed(h)
    from tinynn.graph.tracer import model_tracer
    before = Monitor(ctx)
    texts = []
    with model_tracer() if ctor else contextlib.nullcontext():
        model = progs.build(src)()
        dress(r, model)
        given = list(inputs) if r.random() < 0.7 or len(inputs) > 1 else inputs[0]
        with caller_modes(r):
            mon = Monitor(ctx, model, inputs, h) if not ctor else None  # inside, constructors are patched on purpose
            if ctor:
                o, s = outs(model, inputs, h), zoo.state_of(model)
            for k in range(2):
                torch.manual_seed(h)
                g, err = tracing.trace(model, given, **opts)
                if g is None:
                    ctx.count(f'tracing fails ({err})')
                    break
                if mon is not None and not mon.check(f'trace {k}'):
                    return
                with ctx.sut('generate', 'generating code'):
                    texts.append(tracing.code_of(g))
                if mon is not None and not mon.check(f'generating code {k}'):
                    return
            if ctor:
                if zoo.state_of(model) != s:
                    s2 = zoo.state_of(model)
                    d = [k for k in s if s[k] != s2.get(k)]
                    ctx.violation('model-' + '-'.join(sorted({k.split(':')[0] for k in d})), f'the model changed: {d[:6]}')
                    return
                if not alike(outs(model, inputs, h), o):
                    ctx.violation('model-outputs', 'the model computes other outputs after tracing')
                    return
    if not before.check('after tracing'):
        return
    if len(texts) == 2 and texts[0] != texts[1]:
        ctx.violation('again-differs', f'tracing again gave other code or weights: {texts[0][0][-600:]} / {texts[1][0][-600:]}')
        return
    ctx.ok(src, src[src.find('def forward'):])


@C.family('raising', quick=220, chunk=25)
def _raising(ctx, i):
    """Programs that fail at a random statement, several in a row, then a good one."""
    r = ctx.rng
    src, inputs, opts, ctor, h = prepare(ctx, r.random() < 0.5, r.choice([2, 4, 8]))
    ctx.desc = src
    torch.manual_seed(h)
    from tinynn.graph.tracer import model_tracer
    before = Monitor(ctx)
    good = progs.build(src)()
    good_in = [t.clone() for t in inputs]
    want, _ = tracing.trace(good, good_in, **opts)
    want = tracing.code_of(want) if want is not None else None
    if not before.check('after tracing the model that does not fail'):
        return
    for k in range(r.randint(1, 3)):
        bad, fault = tracing.with_fault(src, r)
        ctx.desc = bad
        where = r.choice(['forward', 'forward', 'forward', 'constructor', 'nested'])
        try:
            with model_tracer() if ctor or where != 'forward' else contextlib.nullcontext():
                if where == 'constructor':
                    progs.build(src)()
                    exec(fault, dict(progs.NS))
                if where == 'nested':
                    with model_tracer():
                        m = progs.build(bad)()
                        dress(r, m)
                        tracing.trace(m, inputs, **opts)
                    raise ValueError('after the inner block')
                m = progs.build(bad)()
                dress(r, m)
                inner = Monitor(ctx, m, inputs, h) if not ctor and where == 'forward' else None
                s = zoo.state_of(m)
                g, err = tracing.trace(m, inputs, **opts)
                ctx.count(f'faults: {err or "traced"}')
                if inner is not None and not inner.check(f'trace that fails with {fault}'):
                    return
                s2 = zoo.state_of(m)
                d = [q for q in s if s[q] != s2.get(q)]
                if d:
                    ctx.violation('model-' + '-'.join(sorted({q.split(':')[0] for q in d})), f'the model changed in a trace that fails with {fault}: {d[:6]}')
                    return
        except (KeyboardInterrupt, SystemExit, Exception) as e:
            ctx.count(f'faults outside of trace: {type(e).__name__}')
        if not before.check(f'after {where} failed with {fault}'):
            return
    if want is not None:
        g, err = tracing.trace(good, good_in, **opts)
        if g is None:
            ctx.violation('later-fails', f'after a failed trace, tracing the model that could be traced before fails with {err}')
            return
        with ctx.sut('generate', 'generating code'):
            got = tracing.code_of(g)
        if got != want:
            ctx.violation('later-differs', f'after a failed trace, the model gives other code: {want[0][-700:]} / {got[0][-700:]}')
            return
    if not before.check('at the end'):
        return
    ctx.ok(src, bad[bad.find('def forward'):])


class Counter(nn.Module):
    """Keeps state in buffers that are saved and buffers that are not."""

    def __init__(self, r):
        super().__init__()
        self.fc = nn.Linear(3, 3)
        self.bn = nn.BatchNorm1d(3, momentum=r.choice([0.1, None]))
        self.register_buffer('count', torch.zeros(1))
        self.register_buffer('steps', torch.zeros(1), persistent=r.random() < 0.5)
        self.register_buffer('seen', torch.zeros(2, 3), persistent=r.random() < 0.5)
        self.how, self.bad = r.choice(['add_', 'copy_', 'setattr', 'none']), r.random() < 0.3

    def forward(self, x):
        y = self.bn(self.fc(x))
        if self.how == 'add_':
            self.count.add_(1)
            self.steps.add_(2)
        elif self.how == 'copy_':
            self.seen.copy_(y.detach())
        elif self.how == 'setattr':
            self.seen = y.detach() * 2
            self.steps = self.steps + 1
        if self.bad:
            raise ValueError('fails')
        return y + self.count + self.seen


@C.family('buffers', quick=75, chunk=15)
def _buffers(ctx, i):
    """Models whose forward pass updates their own buffers."""
    r = ctx.rng
    model = Counter(r)
    model.train(r.random() < 0.5)
    x = torch.randn(2, 3)
    kinds = (model.how, model.bad, 'count steps seen' if not model._non_persistent_buffers_set else str(sorted(model._non_persistent_buffers_set)), model.training)
    ctx.desc = f'{kinds}'
    pers = 'non-persistent' if model._non_persistent_buffers_set and model.how != 'none' else 'persistent'
    ctx.prefix = f'{pers}/{"rebound" if model.how == "setattr" else "in-place"}/'
    before = {k: v.clone() for k, v in model.named_buffers()}
    w = Monitor(ctx)
    g, err = tracing.trace(model, x)
    for k, v in model.named_buffers():
        if v.shape != before[k].shape or not torch.equal(v, before[k]):
            ctx.violation('buffer', f'tracing changed the buffer {k} from {before[k].flatten()[:4].tolist()} to {v.flatten()[:4].tolist()}')
            return
    if w.check('after tracing'):
        ctx.ok(kinds, ctx.desc)


def shape(r, h):
    torch.manual_seed(h)
    a, b = r.randint(2, 5), r.randint(2, 5)
    return a, b, r.choice([lambda: nn.Linear(a, b), lambda: nn.Linear(a, b, bias=False), lambda: nn.Sequential(nn.Linear(a, b), nn.LeakyReLU(r.choice([0.1, 0.2, 0.3]))),
                           lambda: nn.Sequential(nn.Softplus(r.choice([1, 2])), nn.Linear(a, b), nn.Hardtanh(-0.3, 0.7)), lambda: nn.Sequential(nn.ELU(0.5), nn.Linear(a, b)),
                           lambda: nn.Sequential(nn.LayerNorm(a, eps=r.choice([1e-5, 1e-3])), nn.Linear(a, b), nn.CELU(0.3))])


@C.family('reuse', quick=140, chunk=20)
def _reuse(ctx, i):
    """Modules made and dropped while constructors are recorded, copies, and several models in one block: each gets its own code."""
    r = ctx.rng
    from tinynn.graph.tracer import model_tracer
    plans = [(r.randrange(10 ** 6)) for _ in range(r.randint(4, 10))]
    ctx.desc = f'{plans}'
    import random

    def fresh(p):
        q = random.Random(p)
        return shape(q, p)

    ref = {}
    for p in plans:
        a, b, f = fresh(p)
        m = f()
        g, _ = tracing.trace(m, torch.ones(2, a))
        ref[p] = tracing.code_of(g)[0]
        del m, g
    keep = []
    before = Monitor(ctx)
    with contextlib.ExitStack() as st:
        inside = False
        for p in plans:
            if r.random() < 0.3:
                st.close()
                inside = not inside
                if inside:
                    st.enter_context(model_tracer())
            a, b, f = fresh(p)
            m = f()
            how = r.choice(['plain', 'copy', 'pickle', 'keep', 'drop'])
            if how == 'copy':
                m = copy.deepcopy(m)
            elif how == 'pickle':
                import pickle
                m = pickle.loads(pickle.dumps(m))
            elif how == 'drop':  # frees objects whose ids will be used again
                junk = [fresh(r.randrange(10 ** 6))[2]() for _ in range(5)]
                del junk
                gc.collect()
                m = copy.deepcopy(m)
            if how == 'keep':
                keep.append(m)
            g, err = tracing.trace(m, torch.ones(2, a))
            if g is None:
                ctx.violation('fails', f'tracing fails with {err}')
                return
            with ctx.sut('generate', 'generating code'):
                text = tracing.code_of(g)[0]
            if norm(text) != norm(ref[p]):
                ctx.violation('stale', f'{how}, constructors {"" if inside else "not "}recorded: the code is {init(text)} instead of {init(ref[p])}')
                return
            ctx.count('graphs_compared')
    if before.check('after all'):
        ctx.ok(plans, ctx.desc)


def norm(t):
    """Constructor lines as evaluated modules, since recorded arguments are spelt differently from derived ones."""
    return [repr(eval(x.split('=', 1)[1].strip(), {'torch': torch})) for x in t.split('\n') if x.strip().startswith('self.') and ' = torch.nn.' in x]


def init(t):
    return '; '.join(x.strip() for x in t.split('\n') if ' = torch.nn.' in x)


def worker(seed, items, hashseed, sub):
    os.makedirs(sub, exist_ok=True)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, WORKER, str(seed)] + items, cwd=sub, env=env, capture_output=True, text=True, timeout=400)
    lines = [ln for ln in p.stdout.split('\n') if ln.startswith('RESULT ')]
    if not lines:
        return None, p.returncode, p.stderr[-1500:]
    return json.loads(lines[-1][7:]), p.returncode, ''


@C.family('fresh', quick=6, chunk=1, timeout=900)
def _fresh(ctx, i):
    """The same programs traced in different processes: other hash seeds, order and history."""
    r = ctx.rng
    items = [str(i * N + k) for k in range(N)]
    shuffled, withfail = list(items), []
    r.shuffle(shuffled)
    for x in reversed(items):
        if r.random() < 0.3:
            withfail.append(f'fail:{r.randrange(1000)}')
        withfail.append(x)
    runs = []
    for k, order in enumerate((items, shuffled, withfail)):
        ctx.desc = f'process {k}, programs {order}'
        ctx.stage('process')
        res, code, err = worker(ctx.seed, order, r.randint(0, 4000000), f'p{k}')
        if res is None:
            if code < 0:
                ctx.violation('process-died', f'the process died with {code}: {err}')
                return
            raise RuntimeError(f'worker failed: {code} {err}')
        runs.append(res)
    for f, v in runs[2].items():
        if f.startswith('fail:'):
            ctx.count(f'history {v}')
    for x in items:
        rs = [run.get(x) for run in runs]
        if None in rs:
            continue
        ctx.desc = f'program {x}: {rs[0][2]}'
        if len({q[0] for q in rs}) != 1:
            raise RuntimeError('the generator is not deterministic')
        if len({q[1] for q in rs}) != 1:
            ctx.violation('depends-on-history', f'program {x} gives different code or weights in different processes: {[q[1][:20] for q in rs]} {rs[1][2]} {rs[2][2]}')
            continue
        ctx.count('graphs_compared', 3)
        ctx.ok(rs[0][0], rs[0][2])


if __name__ == '__main__':
    sys.exit(C.main())
