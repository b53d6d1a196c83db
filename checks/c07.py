"""C07: recurrent layers convert with the same sequence and state semantics."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402
from vlib import tfl  # noqa: E402

import numpy as np  # noqa: E402
import torch  # noqa: E402
import torch.nn as nn  # noqa: E402

C = core.Check(
    'C07',
    rule='models built around LSTM and GRU layers of random depth, direction, layout, bias, state source and set of outputs, converted under a '
         'random lowering and executed on several sequences after resetting the runtime state; non-trivial when at least two sequences were compared; '
         'distinct by architecture and options',
    assumptions=['the TFLite interpreter computes its operators as specified; it is reset between sequences, as TFLite demands for stateful operators',
                 'the batch-major bidirectional kernel of the runtime is not used with batches larger than one, for which it is broken'],
    preload=('torch', 'tnn', 'tf'),
)


class Model(nn.Module):
    def __init__(self, kind, i, h, layers, bias, bf, bi, state, outs, batch, pre, post, twice, dropout):
        super().__init__()
        self.kind, self.state, self.outs, self.bf, self.twice = kind, state, outs, bf, twice
        self.rnn = getattr(nn, kind)(i, h, layers, bias=bias, batch_first=bf, bidirectional=bi, dropout=dropout)
        d = 2 if bi else 1
        shape = (layers * d, batch, h)
        self.ns = 2 if kind == 'LSTM' else 1
        if state == 'param':
            self.h0 = nn.ParameterList([nn.Parameter(torch.randn(shape)) for _ in range(self.ns)])
        elif state == 'half':  # only one of the states is given values
            self.h0 = nn.ParameterList([nn.Parameter(torch.randn(shape) if k == self.ns - 1 else torch.zeros(shape)) for k in range(self.ns)])
        elif state == 'zeros':
            self.shape = shape
        elif state == 'computed':
            self.mk = nn.ModuleList([nn.Linear(i, h) for _ in range(self.ns)])
            self.rep = layers * d
        self.pre = nn.Linear(i, i) if pre else None
        self.post = nn.Linear(h * (3 - d if twice else d), 3) if post else None
        if twice:
            self.rnn2 = getattr(nn, kind)(h * d, h, 1, bias=not bias, batch_first=bf, bidirectional=not bi)

    def forward(self, x, *st):
        if self.pre is not None:
            x = self.pre(x)
        if self.state == 'input':
            hx = st if self.ns == 2 else st[0]
        elif self.state in ('param', 'half'):
            hx = tuple(self.h0) if self.ns == 2 else self.h0[0]
        elif self.state == 'zeros':
            z = [torch.zeros(self.shape) for _ in range(self.ns)]
            hx = tuple(z) if self.ns == 2 else z[0]
        elif self.state == 'computed':
            first = x[:, 0] if self.bf else x[0]
            z = [torch.stack([torch.tanh(m(first))] * self.rep, 0) for m in self.mk]
            hx = tuple(z) if self.ns == 2 else z[0]
        else:
            hx = None
        y, s = self.rnn(x, hx)
        s = list(s) if self.ns == 2 else [s]
        if self.twice:
            y, s2 = self.rnn2(y)
        if self.post is not None:
            y = self.post(y)
        elif self.outs == 'last':
            y = y[:, -1] if self.bf else y[-1]
        if self.outs == 'states':
            return (y, *s)
        if self.outs == 'stateonly':
            return s[0] if self.ns == 1 else tuple(s)
        if self.outs == 'first':
            return (y, s[0] * 2.0)
        return y


def judge(ctx, model, inputs, kw, desc):
    r = ctx.rng
    ctx.desc = f'{desc} {kw}'
    ctx.stage('convert')
    with ctx.sut('convert', 'conversion'):
        conv = tfl.convert(model, inputs, 'm.tflite', **kw)
        it = tfl.Interp('m.tflite')
    n = len(it.i._get_ops_details())
    ctx.count('operators_in_files', n)
    for k in range(3):
        x = inputs if k == 0 else tfl.fresh_like(inputs, r)
        want = tfl.run_ref(model, x)
        with ctx.sut('run', 'running the converted model'):
            it.reset()
            got = tfl.from_arrays(it.run(tfl.to_arrays(x, conv)), conv)
        msg = tfl.compare(got, want, rtol=1e-3, atol=3e-5)
        if msg:
            ctx.violation('mismatch', f'sequence {k}: {msg}')
            return
        ctx.count('sequences')
        ctx.count('time_steps', max(x[0].shape[:2]))
    ctx.ok(ctx.desc, ctx.desc)


def build(ctx, unrolled, state=None):
    r = ctx.rng
    kind = r.choice(['LSTM', 'GRU']) if unrolled else 'LSTM'
    i, h, layers = r.randint(1, 4), r.randint(1, 4), r.choice([1, 1, 2, 3])
    bias, bf, bi = r.random() < 0.7, r.random() < 0.5, r.random() < 0.5
    batch, t = r.choice([1, 1, 2, 3]), r.choice([1, 2, 3, 4, 5])
    free = unrolled or kind == 'GRU'
    if state is None:
        state = r.choice(['none', 'none', 'zeros', 'param', 'half', 'input', 'input', 'computed']) if free else r.choice(['none', 'none', 'zeros'])
    outs = r.choice(['seq', 'seq', 'last', 'states', 'states', 'stateonly', 'first']) if free else r.choice(['seq', 'last'])
    a = (kind, i, h, layers, bias, bf, bi, state, outs, batch, r.random() < 0.3, r.random() < 0.3, r.random() < 0.25, r.choice([0.0, 0.0, 0.5]) if layers > 1 else 0.0)
    model = Model(*a).eval()
    for p in model.parameters():
        p.data *= r.choice([1.0, 1.0, 2.0])
    x = [torch.randn((batch, t, i) if bf else (t, batch, i))]
    if state == 'input':
        x += [torch.randn((2 if bi else 1) * layers, batch, h) for _ in range(model.ns)]
    kw = {}
    if unrolled and (kind == 'LSTM' or r.random() < 0.5):
        kw['unroll_rnn'] = True
    if r.random() < 0.4:
        kw['separated_rnn_gate_calc'] = True
    if r.random() < 0.3:
        kw['group_tensors'] = True
    if r.random() < 0.3:
        kw['optimize'] = r.choice([0, 1, 2, 3, 4])
    if r.random() < 0.15:
        kw['nchw_transpose'] = False
    if r.random() < 0.15:
        kw['rewrite_quantizable'] = True
    return model, x, kw, a, f'{a} T={t}'


@C.family('unrolled', quick=900, chunk=30)
def _unrolled(ctx, i):
    model, x, kw, a, desc = build(ctx, True)
    judge(ctx, model, x, kw, desc)


@C.family('fused', quick=500, chunk=25)
def _fused(ctx, i):
    """Sequence operators with internal state; both bidirectional lowerings."""
    r = ctx.rng
    model, x, kw, a, desc = build(ctx, False)
    bi, bf, batch, twice = a[6], a[5], a[9], a[12]
    if r.random() < 0.5:
        kw['map_bilstm_to_lstm'] = True
    elif (bi or twice) and bf and batch > 1:
        kw['map_bilstm_to_lstm'] = True  # the batch-major bidirectional kernel of the runtime is broken for batches
    judge(ctx, model, x, kw, desc)


@C.family('refused', quick=60, chunk=30)
def _refused(ctx, i):
    """Stateful sequence operators cannot take or return states: this is refused instead of being ignored."""
    r = ctx.rng
    state = r.choice(['input', 'param', 'half', 'computed', 'none'])
    model, x, kw, a, desc = build(ctx, False, state)
    if state == 'none':
        model.outs = r.choice(['states', 'stateonly', 'first'])
        desc += model.outs
    if a[6] and a[5] and a[9] > 1 or a[12]:
        kw['map_bilstm_to_lstm'] = True
    ctx.desc = f'{desc} {kw}'
    try:
        conv = tfl.convert(model, x, 'm.tflite', **kw)
    except (AssertionError, NotImplementedError) as e:
        ctx.count('refused')
        ctx.ok(ctx.desc, f'{ctx.desc}: {str(e)[:80]}')
        return
    except Exception as e:
        ctx.violation('refused', f'conversion failed without a clear message: {type(e).__name__}: {e}')
        return
    it = tfl.Interp('m.tflite')
    for k in range(2):
        y = x if k == 0 else tfl.fresh_like(x, r)
        it.reset()
        msg = tfl.compare(tfl.from_arrays(it.run(tfl.to_arrays(y, conv)), conv), tfl.run_ref(model, y), rtol=1e-3, atol=3e-5)
        if msg:
            ctx.violation('mismatch', f'accepted, but {msg}')
            return
    ctx.ok(ctx.desc, ctx.desc)


if __name__ == '__main__':
    sys.exit(C.main())
