"""Development aid: shrinks a failing graph case of C02/C03:  shrink_graph.py c02 graphs:14 [seed]"""
import importlib
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
from vlib import core, graphs, tfl  # noqa
import numpy as np
import random
import torch
import warnings
warnings.filterwarnings('ignore')


def prune(steps, n_in, outs, tags):
    live = set(outs)
    for k in range(len(steps) - 1, -1, -1):
        if n_in + k in live:
            live.update(steps[k][1])
    remap, ns, nt, nv = {}, [], [], 0
    keep_in = [i for i in range(n_in) if i in live]
    for v in range(n_in + len(steps)):
        if v in live:
            remap[v] = nv
            nv += 1
            if v >= n_in:
                ns.append((steps[v - n_in][0], [remap[a] for a in steps[v - n_in][1]]))
                nt.append(tags[v - n_in])
    return ns, keep_in, [remap[o] for o in outs], nt


def main():
    mod, case = sys.argv[1:3]
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    m = importlib.import_module(mod)
    fam, idx = case.split(':')
    os.chdir(tempfile.mkdtemp())
    got = {}

    def fake(ctx, net, inputs, desc, tags, *a, **kw):
        got.update(net=net, inputs=inputs, tags=tags, extra=a, kw=kw, rng=ctx.rng.getstate())
        raise core.Skip('x')
    m.run = fake
    try:
        list(m.C.run_cases(m.C.families[fam], [int(idx)], seed, 'quick'))
    except core.Skip:
        pass
    extra = got['extra'][0]
    opts = [{'optimize': lv} for lv in extra] if isinstance(extra, list) else [extra]

    def fails(net, inputs, kw, show=False):
        """None or class of failure."""
        pid = os.fork() if False else None
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            res = ''
            try:
                dn = os.open('/dev/null', os.O_WRONLY)
                if not show:
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                xs = [inputs] + [tfl.fresh_like(inputs, random.Random(0)) for _ in range(2)]
                refs = [(x, tfl.run_ref(net, x)) for x in xs]
                try:
                    conv = tfl.convert(net, inputs, 'm.tflite', **kw)
                    it = tfl.Interp('m.tflite')
                    for x, w in refs:
                        g = tfl.from_arrays(it.run(tfl.to_arrays(x, conv)), conv)
                        msg = tfl.compare(g, w, rtol=1e-3)
                        if msg:
                            res = 'mismatch ' + msg
                            break
                except Exception as e:
                    if show:
                        import traceback
                        traceback.print_exc()
                    res = 'raised ' + core.norm_msg(e)
            except BaseException as e:
                res = ''
            os.write(wr, res.encode()[:3000])
            os.close(wr)
            os._exit(0)
        os.close(wr)
        out = b''
        while True:
            b = os.read(rd, 4096)
            if not b:
                break
            out += b
        os.close(rd)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            return 'died'
        return out.decode()

    net, inputs, tags = got['net'], got['inputs'], got['tags']
    kw = None
    for o in opts:
        f = fails(net, inputs, o)
        if f:
            kw, kind = o, f
            break
    if kw is None:
        print('not reproduced')
        return
    cls = kind.split()[0]
    steps = list(zip(list(net.mods), net.args))
    state = (steps, inputs, net.outs, tags)
    changed = True

    def attempt(steps, inputs, outs, tags):
        ns, keep, no, nt = prune(steps, len(inputs), outs, tags)
        if not ns:
            return None
        ni = [inputs[k] for k in keep]
        n = graphs.Net(len(ni), ns, no).eval()
        try:
            o = tfl.run_ref(n, ni)
        except Exception:
            return None
        if any(a.shape == b.shape and torch.equal(a, b) for a in o for b in ni):
            return None
        f = fails(n, ni, kw)
        return (ns, ni, no, nt) if f.split()[:1] == [cls] else None

    while changed:
        changed = False
        steps, inputs, outs, tags = state
        n_in = len(inputs)
        cands = []
        for o in range(len(outs)):
            if len(outs) > 1:
                cands.append((steps, inputs, outs[:o] + outs[o + 1:], tags))
        vals = graphs.Net(n_in, steps, outs).eval().values(*tfl.clone_inputs(inputs))
        for v in range(n_in, len(vals)):
            # value becomes an input
            ni = inputs + [vals[v].detach().clone()]
            ns = []
            mp = {}
            for k in range(n_in + len(steps)):
                mp[k] = k if k < n_in else k + 1
            mp[v] = n_in
            ns = [(s[0], [mp[a] for a in s[1]]) for s in steps]
            if v not in outs:
                cands.append((ns, ni, [mp[o] for o in outs], tags))
            # value replaced by its argument
            for a in steps[v - n_in][1]:
                if vals[a].shape == vals[v].shape:
                    mp2 = {k: k for k in range(len(vals))}
                    mp2[v] = a
                    ns = [(s[0], [mp2[x] for x in s[1]]) for s in steps]
                    no = [mp2[o] for o in outs]
                    if all(o >= n_in for o in no):
                        cands.append((ns, inputs, no, tags))
        for c in cands:
            r = attempt(*c)
            if r is not None:
                state = r
                changed = True
                break
    steps, inputs, outs, tags = state
    n = graphs.Net(len(inputs), steps, outs).eval()
    f = fails(n, inputs, kw, show='-s' in sys.argv)
    print(case, kw, '|', f[:200])
    print('   in', [list(x.shape) for x in inputs], [(t, list(y.shape)) for t, y in zip(tags, n.values(*inputs)[len(inputs):])], 'args', [a for _, a in steps], 'outs', outs)
    if '-s' in sys.argv:
        import tensorflow as tf
        tfl.convert(n, inputs, '/tmp/shr.tflite', **kw)
        tf.lite.experimental.Analyzer.analyze(model_path='/tmp/shr.tflite')


main()
