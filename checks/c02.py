"""C02: graph optimisation never changes what a converted model computes."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402
from vlib import graphs, tfl  # noqa: E402

import torch  # noqa: E402

C = core.Check(
    'C02',
    rule='random operator graphs (chains, branches, joins, shared and exposed intermediate tensors; rewriting motifs over-represented), each '
         'converted at three optimisation levels and executed on three inputs; non-trivial when at least two levels were executed and compared; '
         'distinct by sequence of operator kinds, wiring and levels',
    assumptions=['the TFLite interpreter (without delegates) computes its operators as specified'],
    preload=('torch', 'tnn', 'tf'),
)


def tolerance(want):
    # normalisation layers blow up rounding differences of nearly constant inputs
    return 5e-5 + 2e-5 * max(float(w.abs().max()) for w in want)


def run(ctx, net, inputs, desc, tags, levels):
    r = ctx.rng
    ctx.desc = f'levels {levels} {desc}'
    refs = []
    for x in [inputs] + [tfl.fresh_like(inputs, r) for _ in range(2)]:
        w = tfl.run_ref(net, x)
        if all(bool(torch.isfinite(o).all()) and float(o.abs().max()) < 1e4 for o in w):
            refs.append((x, w))
    iface = None
    for lv in levels:
        ctx.stage(f'level{lv}')
        with ctx.sut(f'level{lv}', f'conversion at level {lv}'):
            conv = tfl.convert(net, inputs, 'm.tflite', optimize=lv)
            it = tfl.Interp('m.tflite')
            face = ([(tuple(d['shape']), str(d['dtype'])) for d in it.ins], [(tuple(d['shape']), str(d['dtype'])) for d in it.outs])
            got = [tfl.from_arrays(it.run(tfl.to_arrays(x, conv)), conv) for x, _ in refs]
        ctx.count('conversions')
        ctx.count('operators_in_files', len(it.i._get_ops_details()))
        for (x, want), g in zip(refs, got):
            msg = tfl.compare(g, want, rtol=1e-3, atol=tolerance(want))
            if msg and 'differ, worst' in msg:  # ill-conditioned?
                sens = tfl.sensitivity(net, x, want)
                msg = tfl.compare(g, want, rtol=1e-3, atol=tolerance(want) + 30 * sens)
                ctx.count('conditioning_examined')
            if msg:
                ctx.violation(f'level{lv}/mismatch', f'level {lv}: {msg}')
                return
        if iface is not None and iface != face:
            ctx.violation(f'level{lv}/interface', f'interface {face} differs from {iface} at level {levels[0]}')
            return
        iface = face
    ctx.ok(f'{levels}/{desc}', ctx.desc)


def levels_of(r):
    return r.choice([[0, 5], [5, 1], [5, 2], [5, 3], [5, 4], [0, 4], [2, 5, 3]])


@C.family('graphs', quick=2000, chunk=40)
def _graphs(ctx, i):
    r = ctx.rng
    b = graphs.build(r)
    if b is None:
        ctx.skip('no graph')
    net, inputs, desc, tags = b
    run(ctx, net, inputs, desc, tags, levels_of(r))


@C.family('layout', quick=1600, chunk=40)
def _layout(ctx, i):
    """Transposes and reshapes around element-wise, reducing and indexing operators."""
    r = ctx.rng
    b = graphs.build(r, n_steps=r.randint(2, 7), groups=('layout', 'elem', 'index', 'binary', 'motif'), avoid=('softmax',))
    if b is None:
        ctx.skip('no graph')
    run(ctx, *b, levels_of(r))


@C.family('conv', quick=1000, chunk=40)
def _conv(ctx, i):
    """Convolutional chains with normalisation, activation, padding, pooling and arithmetic next to them."""
    r = ctx.rng
    b = graphs.build(r, n_steps=r.randint(2, 8), shapes=[[1 if r.random() < 0.7 else 2, r.choice([1, 2, 3, 4, 6]), r.randint(5, 9), r.randint(5, 9)]],
                     groups=('layer', 'motif', 'elem', 'binary'))
    if b is None:
        ctx.skip('no graph')
    run(ctx, *b, levels_of(r))


if __name__ == '__main__':
    sys.exit(C.main())
