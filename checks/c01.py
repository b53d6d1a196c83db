"""C01: a converted float model computes what the PyTorch operator computes, for every operator, argument combination and input."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402
from vlib import ops, tfl  # noqa: E402

import torch  # noqa: E402

C = core.Check(
    'C01',
    rule='random single-operator programs over an operator table (element-wise, shape, reduction, layer, index and integer operators with '
         'random ranks, sizes and argument spellings), each converted once and run on the example input and on fresh inputs; a case is '
         'non-trivial when the converted file was executed and at least one non-empty output was compared; distinct by operator and '
         'argument-variant tag',
    assumptions=['the TFLite interpreter (without delegates) computes its operators as specified'],
    preload=('torch', 'tnn', 'tf'),
)


def judge(ctx, name, model, inputs, tag, gens=None, kw=None, tol=None):
    ctx.desc = f'{name} [{tag}] inputs {[list(t.shape) for t in inputs]} {kw or ""}'
    model.eval()
    refs = [(inputs, tfl.run_ref(model, inputs))]
    for _ in range(2):
        x = tfl.fresh_like(inputs, ctx.rng, gens)
        refs.append((x, tfl.run_ref(model, x)))
    if sum(t.numel() for t in refs[0][1]) == 0:
        ctx.skip('empty output')
    if any(o.shape == x.shape and torch.equal(o, x) for x in inputs for o in refs[0][1]):
        ctx.skip('returns an input unchanged: an input cannot be an output of a converted model')
    if name == 'gelu':
        tol = {'atol': 2e-3}  # the existing tests demand that plain GELU is lowered to its approximation
    ctx.stage(name)
    with ctx.sut(name, f'conversion of {name} [{tag}]'):
        conv = tfl.convert(model, inputs, 'm.tflite', **(kw or {}))
        it = tfl.Interp('m.tflite')
        got = [tfl.from_arrays(it.run(tfl.to_arrays(x, conv)), conv) for x, _ in refs]
    for (x, want), g in zip(refs, got):
        msg = tfl.compare(g, want, **(tol or {}))
        if msg:
            ctx.violation(f'{name}/mismatch', f'{name} [{tag}]: {msg}')
            return
        ctx.count('outputs_compared', len(want))
    ctx.ok(f'{name}/{tag}', ctx.desc)


LAYOUTS = [{}, {}, {'nchw_transpose': False}]

UN = sorted(ops.UNARY)
BN = sorted(ops.BINARY)
SP = sorted(ops.SPECIAL)


@C.family('unary', quick=len(UN) * 70, thorough=len(UN) * 700, chunk=64)
def _unary(ctx, i):
    r = ctx.rng
    name = UN[i % len(UN)]
    m = ops.make_unary(r, name)
    if m is None:
        ctx.skip(f'no instance of {name}')
    model, s, tag = m
    judge(ctx, name, model, [torch.randn(s) * r.choice([1.0, 2.0])], tag, kw=dict(r.choice(LAYOUTS)))


@C.family('binary', quick=len(BN) * 60, thorough=len(BN) * 600, chunk=64)
def _binary(ctx, i):
    r = ctx.rng
    name = BN[i % len(BN)]
    m = ops.make_binary(r, name)
    if m is None:
        ctx.skip(f'no instance of {name}')
    model, s, s2, tag = m
    judge(ctx, name, model, [torch.randn(s), torch.randn(s2)], tag, kw=dict(r.choice(LAYOUTS)))


@C.family('special', quick=len(SP) * 70, thorough=len(SP) * 700, chunk=64)
def _special(ctx, i):
    r = ctx.rng
    name = SP[i % len(SP)]
    p = ops.SPECIAL[name](r)
    judge(ctx, name, p.model, p.inputs, p.tag, p.gens, dict(r.choice(LAYOUTS), **p.kw), p.tol)


def _assign(m, x, v):
    x = x * 1.0
    x[:, 1] = v
    return x


# genuine defects recorded in known_findings.json, one pinned case each; the generators above avoid them
KNOWN = [
    ('setitem', lambda: (ops.Fn(_assign), [torch.randn(3, 6), torch.randn(3)])),
    ('bilinear-fraction', lambda: (torch.nn.Upsample(scale_factor=1.5, mode='bilinear', align_corners=False), [torch.randn(2, 3, 5, 4)])),
]


@C.family('known', quick=len(KNOWN), thorough=len(KNOWN), chunk=1)
def _known(ctx, i):
    name, f = KNOWN[i]
    model, inputs = f()
    judge(ctx, name, model, inputs, 'pinned')


if __name__ == '__main__':
    sys.exit(C.main())
