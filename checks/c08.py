"""C08: conversion is repeatable and does not disturb its inputs."""
import copy
import hashlib
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402
from vlib import tfl, zoo  # noqa: E402

import torch  # noqa: E402

C = core.Check(
    'C08',
    rule='random models under random options, each converted in fresh processes with different hash seeds, orders and histories (including failing '
         'conversions), and repeatedly in one process; monitors compare digests of the files and snapshots of the model, the inputs and the state of '
         'the process; non-trivial when a file was produced by every conversion compared; distinct by model and options',
    assumptions=['one build of PyTorch and one machine'],
)
WORKER = os.path.join(core.VERIF, 'vlib', 'conv_worker.py')
N = 30


def fresh(seed, items, hashseed, sub):
    os.makedirs(sub, exist_ok=True)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, WORKER, str(seed)] + items, cwd=sub, env=env, capture_output=True, text=True, timeout=400)
    lines = [ln for ln in p.stdout.split('\n') if ln.startswith('RESULT ')]
    if not lines:
        return None, p.returncode, p.stderr[-1500:]
    return json.loads(lines[-1][7:]), p.returncode, ''


@C.family('fresh', quick=24, chunk=1, timeout=900)
def _fresh(ctx, i):
    """The same models in different processes: other hash seeds, other order, other things converted before."""
    r = ctx.rng
    items = [str(i * N + k) for k in range(N)]
    runs = []
    shuffled = list(items)
    r.shuffle(shuffled)
    withfail = []
    for x in reversed(items):
        if r.random() < 0.2:
            withfail.append('fail:' + r.choice(zoo.FAILURES))
        withfail.append(x)
    for k, order in enumerate((items, shuffled, withfail)):
        ctx.desc = f'process {k}, models {order}'
        ctx.stage('process')
        res, code, err = fresh(ctx.seed, order, r.randint(0, 4000000), f'p{k}')
        if res is None:
            if code < 0:
                ctx.violation('process-died', f'the process died with {code}: {err}')
                return
            raise RuntimeError(f'worker failed: {code} {err}')
        runs.append(res)
    for f, v in runs[2].items():
        if f.startswith('fail:'):
            ctx.count(f'{f} {v}')
    for x in items:
        rs = [run.get(x) for run in runs]
        if None in rs:
            continue
        if len({q[0] for q in rs}) != 1:
            raise RuntimeError(f'the generator is not deterministic: {rs[0][3]}')
        ctx.desc = f'{x}: {rs[0][3]}'
        if any(q[1].startswith('error') for q in rs):
            if len({q[1] for q in rs}) != 1:
                ctx.violation('depends-on-history', f'converting gave {[q[1][:80] for q in rs]} in different processes')
            else:
                ctx.count('rejected_everywhere')
            continue
        ctx.count('files_compared', 3)
        if len({q[1] for q in rs}) != 1:
            ctx.violation('differs', f'three conversions in fresh processes gave files {[(q[1][:12], q[2]) for q in rs]} (bytes)')
            continue
        ctx.ok(rs[0][3], ctx.desc)


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def fwd_hook(m, a, o):
    return None


@C.family('disturb', quick=480, chunk=40)
def _disturb(ctx, i):
    """Conversions in this process: twice the same bytes; model, inputs and process state stay as they were, also when it fails."""
    from tinynn.converter import TFLiteConverter
    r = ctx.rng
    m = zoo.model_for(ctx.seed + 1000, i)
    if m is None:
        ctx.skip('no model')
    net, inputs, kw, desc = m
    if "('RNN'" in desc:
        ctx.skip('not supported by the converter')
    ctx.desc = desc
    train = r.random() < 0.4
    for x in net.modules():
        x.training = train and r.random() < 0.6
    if r.random() < 0.5 and list(net.children()):
        list(net.modules())[-1].register_forward_hook(fwd_hook)
    for p in net.parameters():
        p.requires_grad_(r.random() < 0.6)
        if p.requires_grad and r.random() < 0.3:
            p.grad = torch.ones_like(p)
    examples = tfl.clone_inputs(inputs)
    if r.random() < 0.3:  # strides of the example inputs must not matter
        strided = [t.transpose(0, -1).contiguous().transpose(0, -1) if isinstance(t, torch.Tensor) and t.dim() > 1 else t for t in examples]
        try:
            with torch.no_grad():
                copy.deepcopy(net)(*tfl.clone_inputs(strided))
            examples = strided
        except RuntimeError:  # a view that needs contiguous tensors
            pass
    flat = tfl.flatten(list(examples))
    given = list(examples) if r.random() < 0.5 else tuple(examples)
    opts = json.dumps(kw, sort_keys=True)
    shas, keep = [], []
    n = r.choice([2, 2, 3])
    for k in range(n):
        if r.random() < 0.4:  # another conversion in between, possibly a failing one
            how = r.choice(zoo.FAILURES + ['good'])
            bad = zoo.Unsupported('path' if how == 'good' else how).eval()
            before = zoo.state_of(bad), zoo.world_state()
            try:
                TFLiteConverter(bad, torch.randn(2, 4), '/dev/null/x/f.tflite' if how == 'path' else 'f.tflite').convert()
            except BaseException as e:
                ctx.count(f'failed conversions ({how}, {type(e).__name__})')
            after = zoo.state_of(bad), zoo.world_state()
            before[1].pop('torch_rng'), after[1].pop('torch_rng')
            for b, a in zip(before, after):
                diff = [q for q in b if b[q] != a.get(q)]
                if diff or set(a) - set(b):
                    ctx.violation('failed-conversion-state', f'a conversion ({how}) changed {diff[:5]} {sorted(set(a) - set(b))[:5]}')
                    return
        ms, ws = zoo.state_of(net), zoo.world_state()
        fs = [(t.data_ptr(), tuple(t.shape), tuple(t.stride()), t.requires_grad, t.numpy().tobytes()) for t in flat]
        with ctx.sut('convert', f'conversion {k}'):
            conv = TFLiteConverter(net, given, 'm.tflite', **kw)
            conv.convert()
        keep.append(conv)
        ma, wa = zoo.state_of(net), zoo.world_state()
        fa = [(t.data_ptr(), tuple(t.shape), tuple(t.stride()), t.requires_grad, t.numpy().tobytes()) for t in flat]
        diff = [q for q in ms if ms[q] != ma.get(q)] + sorted(set(ma) - set(ms))
        if diff:
            kinds = sorted({q.split(':')[0] for q in diff})
            ctx.violation('model-' + '-'.join(kinds), f'conversion {k} changed the model: {diff[:6]}')
            return
        diff = [q for q in ws if ws[q] != wa[q]]
        if diff:
            ctx.violation('process-' + '-'.join(diff), f'conversion {k} changed the state of the process: {diff}')
            return
        if fs != fa:
            ctx.violation('inputs', f'conversion {k} changed the example inputs')
            return
        if json.dumps(kw, sort_keys=True) != opts:
            ctx.violation('options', 'the options passed in were modified')
            return
        shas.append(hashlib.sha256(read('m.tflite')).hexdigest())
        ctx.count('conversions')
    if len(set(shas)) != 1:
        ctx.violation('repeat-differs', f'{n} conversions of one model gave different files {[s[:12] for s in shas]}')
        return
    ctx.ok(desc, desc)


if __name__ == '__main__':
    sys.exit(C.main())
