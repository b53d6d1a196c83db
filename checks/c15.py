"""C15: preparing a model for quantization keeps its float function."""
import contextlib
import copy
import io
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, progs, qgen, qtools  # noqa: E402

import torch  # noqa: E402

warnings.filterwarnings('ignore')
C = core.Check(
    'C15',
    rule='random networks (layers in fusable sequences, arithmetic in all spellings, joins, shared values and modules, in-place statements, activations as modules and functions) '
         'prepared by every quantizer and setting; with fake quantization and observers disabled the prepared model is executed next to the original in evaluation and training '
         'mode and with observers enabled; original model unchanged; distinct by program text and settings',
    assumptions=['the forward pass follows the same control flow for every input compared'],
    preload=('torch', 'tnn'),
)


def judge(ctx, key, src, x, kind, config, m, modes):
    m0 = copy.deepcopy(m)
    training = [q.training for q in m.modules()]
    state = {k: v.clone() for k, v in m.state_dict().items()}
    inplace = config.get('inplace', False) or not config.get('rewrite_graph', True)  # works on the model itself
    with ctx.sut(f'{key}/prepare', 'preparing'):
        try:
            q = qtools.prepare(kind, copy.deepcopy(m) if inplace else m, x, config)
        except BaseException as e:
            if 'Per channel weight observer is not supported yet' in str(e):
                ctx.skip('per-channel transposed convolutions')
            if isinstance(e, AssertionError) and config.get('dynamic_lstm_quant') and 'bias=False' in src:
                ctx.skip('dynamically quantized LSTMs need biases')
            if 'torch.histc: max must be' in str(e):
                ctx.skip('histograms of unbounded constants')
            qtools.explain(ctx, m0, x, e)
            raise
    if not inplace:
        if any(not torch.equal(v, state[k]) and not bool((v != v).any()) for k, v in m.state_dict().items()):
            return ctx.violation(f'{key}/original', 'the weights of the model given by the user change')
        if [p.training for p in m.modules()] != training:
            return ctx.violation(f'{key}/original-mode', 'the mode of the model given by the user changes')
    if config.get('rewrite_graph', True) and not config.get('fuse_only'):
        ctx.count('fake_quantizers', qtools.count(q))
    qtools.disable(q)
    if config.get('dynamic_lstm_quant') and 'nn.LSTM' in src:  # those stay quantized: only runs are judged
        with ctx.sut(f'{key}/dynamic', 'the prepared model'), torch.no_grad():
            qtools.run(q.eval(), x)
        return ctx.ok(src + str(config) + kind, ctx.desc)
    for mode in modes:
        a, b = copy.deepcopy(m0).train(mode == 'train'), copy.deepcopy(q).train(mode == 'train')
        for step in range(2):
            xs = x if step == 0 else [torch.randn_like(t) if t.is_floating_point() else t for t in x]
            if not qtools.stable(a, xs):
                continue
            with torch.no_grad():
                want = qtools.run(a, xs)
                with ctx.sut(f'{key}/{mode}', f'the prepared model in {mode} mode'):
                    got = qtools.run(b, xs)
            d = qtools.differ(want, got)
            ctx.count('outputs_compared', len(want))
            if d:
                qtools.explain(ctx, m0, x, None)
                return ctx.violation(f'{key}/{mode}/function', f'{d} in {mode} mode{" at the second batch" if step else ""}')
        if mode == 'train':  # what training has recorded
            a.eval(), b.eval()
            if qtools.stable(a, x):
                with torch.no_grad():
                    d = qtools.differ(qtools.run(a, x), qtools.run(b, x))
                if d:
                    return ctx.violation(f'{key}/train/statistics', f'{d} after two batches of training')
    # observing does not change results
    if kind != 'dynamic' and not config.get('fuse_only'):
        b = copy.deepcopy(q).eval()
        with torch.no_grad():
            want = qtools.run(b, x)
            qtools.observe(b)
            with ctx.sut(f'{key}/observe', 'observing'):
                got = qtools.run(b, x)
        d = qtools.differ(want, got, 0)
        if d:
            return ctx.violation(f'{key}/observe/function', f'{d} when observers are enabled')
        ctx.count('observed_runs', 1)
    ctx.ok(src + str(config) + kind, ctx.desc)


@C.family('networks', quick=400, chunk=20)
def _nets(ctx, i):
    r = ctx.rng
    torch.manual_seed(r.randrange(1 << 30))
    kind = r.choice(['qat', 'qat', 'ptq'])
    made = qgen.make(r, train=True, nout=r.choice([1, 2, 3]))
    if made is None:
        ctx.skip('empty program')
    src, x, feats = made
    m = progs.build(src)()
    qgen.randomize(m, r)
    m.train(r.random() < 0.5)
    config = qtools.config(r, kind)
    ctx.desc = f'{kind} {config} inputs {[tuple(t.shape) for t in x]}\n{src}'
    for f in feats:
        ctx.count('feature ' + f, 1)
    judge(ctx, 'networks', src, x, kind, config, m, ['eval', 'train'] if kind == 'qat' else ['eval'])


@C.family('programs', quick=160, chunk=10)
def _progs(ctx, i):
    r = ctx.rng
    torch.manual_seed(r.randrange(1 << 30))
    kind = r.choice(['qat', 'qat', 'ptq'])
    made = progs.make(r, r.choice([2, 4, 6]), random_ops=False, hostile=False, nested=False)
    if made is None:
        ctx.skip('empty program')
    src, x, feats = made
    m = progs.build(src)()
    m.train(r.random() < 0.5)
    config = qtools.config(r, kind)
    if ('3.4e38' in src or '/ 0' in src) and kind == 'ptq':
        ctx.skip('unbounded constants have no histograms')
    ctx.desc = f'{kind} {config} inputs {[tuple(t.shape) for t in x]}\n{src}'
    judge(ctx, 'programs', src, x, kind, config, m, ['eval'])


if __name__ == '__main__':
    sys.exit(C.main())
