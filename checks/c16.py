"""C16: the quantizer configuration decides exactly what is quantized and how."""
import contextlib
import copy
import io
import os
import re
import sys
import types
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, progs, qgen, qtools  # noqa: E402

import torch  # noqa: E402
import torch.nn as nn  # noqa: E402

warnings.filterwarnings('ignore')
C = core.Check(
    'C16',
    rule='random networks are prepared with random layer-wise selections (by exclusion and by inclusion), operator actions, override functions, schemes, input and operator '
         'statistics; after conversion every statement of the generated definition is executed under a monitor that records whether its result is quantized: disabled statements '
         'must be float, all others as without selection; attributes of all fake quantizers and observers are compared with the configured scheme; written configurations are '
         'read back and must reproduce definition and quantizers; distinct by program text and settings',
    assumptions=['statements without quantized kernels in the installed PyTorch are not part of the generated networks', 'the rewriting for TensorRT is not covered'],
    preload=('torch', 'tnn'),
)

PREFIX = 'fake_quant', 'fake_dequant', 'fuse_', 'rewritten_bn2d_'


def sig(q):
    """What a fake quantizer or observer does."""
    if isinstance(q, torch.quantization.FakeQuantizeBase):
        o = getattr(q, 'activation_post_process', None)
        fixed = isinstance(q, torch.ao.quantization.fake_quantize.FixedQParamsFakeQuantize)
        s = [type(q).__name__, q.dtype if hasattr(q, 'dtype') else None, str(q.qscheme), q.quant_min, q.quant_max, type(o).__name__]
        return tuple(s + ([q.scale.tolist(), q.zero_point.tolist()] if fixed else []))
    s = [type(q).__name__, q.dtype, str(getattr(q, 'qscheme', None)), getattr(q, 'quant_min', None), getattr(q, 'quant_max', None)]
    return tuple(s)


def quantized(m):
    """name -> (activation, weight) signature of every module with quantizers"""
    out = {}
    for n, p in m.named_modules():
        a, w = getattr(p, 'activation_post_process', None), getattr(p, 'weight_fake_quant', None)
        if isinstance(p, (torch.quantization.FakeQuantizeBase, torch.quantization.ObserverBase)):
            continue
        if isinstance(a, nn.Module) or isinstance(w, nn.Module):
            out[n] = tuple(sig(t) if isinstance(t, nn.Module) else None for t in (a, w))
    return out


class Run:
    """One run of a quantizer: prepared model, converted model and what its statements compute."""

    def __init__(self, ctx, key, kind, m, x, config, work, convert=True):
        from tinynn.graph.quantization import quantizer as Q
        cls = {'qat': Q.QATQuantizer, 'ptq': Q.PostQuantizer}[kind]
        err = io.StringIO()
        with ctx.sut(f'{key}/prepare', 'preparing'):
            try:
                with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
                    self.q = cls(copy.deepcopy(m), tuple(t.clone() for t in x), work_dir=work, config=dict(config))
                    self.p = self.q.quantize()
            except SystemExit:
                raise RuntimeError('exit: ' + ' '.join(err.getvalue().strip().split('\n')[-2:])[-300:]) from None
        name = f'q{type(m).__name__}'.lower()[1:] + '_q'
        self.code = open(f'{work}/{name}.py').read()
        self.yml = f'{work}/{name}_config.yml'
        import ruamel.yaml as yaml
        self.config = dict(yaml.YAML().load(open(self.yml)) or {})
        self.sigs = quantized(self.p)
        self.kinds = {n: type(p).__name__ for n, p in self.p.named_modules()}
        self.floats = {}  # statement -> is its result quantized
        if convert:
            self.p.train()
            for _ in range(2):
                self.p(*[t.clone() for t in x])
            self.p.eval()
            self.p.apply(torch.quantization.disable_observer)
            with ctx.sut(f'{key}/convert', 'converting'), contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
                self.c = self.q.convert(copy.deepcopy(self.p), backend='pytorch')
            self.observe(ctx, key, x)

    def observe(self, ctx, key, x):
        body = self.code[self.code.index('    def forward'):self.code.index('if __name__')]
        lines, rec = [], {}
        for ln in body.rstrip().split('\n'):
            lines.append(ln[4:])
            k = re.match(r'        (\w+) = (.*)', ln)
            if k and k.group(2) != 'None':
                lines.append(f"    _rec('{k.group(1)}', {k.group(1)})")
        ns = {}
        exec(self.code[:self.code.index('class ')], ns)

        def note(n, v):
            ts = [t for t in qtools.flat(v) if isinstance(t, torch.Tensor)]
            if ts:
                rec[n] = any(t.is_quantized for t in ts)
        ns['_rec'] = note
        exec('\n'.join(lines), ns)
        m = copy.copy(self.c)
        with ctx.sut(f'{key}/run', 'the converted model'), torch.no_grad():
            try:
                types.MethodType(ns['forward'], m)(*[t.clone() for t in x])
            except RuntimeError as e:
                if 'pytorch_qnnp_status_success' in str(e):
                    ctx.skip('scales beyond the limits of the kernels')
                raise
            rec.clear()
            types.MethodType(ns['forward'], m)(*[t.clone() for t in x])
        self.floats = rec
        ctx.count('statements_observed', len(rec))


def definition(run):
    return run.code[:run.code.index('if __name__')]


def network(ctx, n=None):
    r = ctx.rng
    torch.manual_seed(r.randrange(1 << 30))
    made = qgen.make(r, n, core=True, nout=r.choice([1, 1, 2]))
    if made is None:
        ctx.skip('empty program')
    src, x, feats = made
    m = progs.build(src)()
    qgen.randomize(m, r)
    return src, x, m


def settings(r, kind):
    c = {'asymmetric': r.random() < 0.6, 'per_tensor': r.random() < 0.6}
    if r.random() < 0.2:
        c['rounding_mode'] = 'tflite'
    if r.random() < 0.15:
        c['legacy_fq'] = False
    if kind == 'ptq' and r.random() < 0.3:
        c['algorithm'] = 'kl'
    return c


def compare(ctx, key, base, run, disabled, names):
    """Disabled names must be float, all others as in the base run."""
    for n in names:
        if n not in base.floats:
            continue
        if n in disabled:
            if run.floats.get(n):
                return ctx.violation(f'{key}/disabled', f'{n} is disabled but computes a quantized result\n{run.code}')
            for s in run.sigs:
                if s == n:
                    return ctx.violation(f'{key}/disabled-quantizers', f'{n} is disabled but has quantizers {run.sigs[s]}\n{run.code}')
            ctx.count('disabled_statements')
        elif n in run.floats and base.floats[n]:
            if not run.floats[n]:
                return ctx.violation(f'{key}/enabled', f'{n} is not disabled but computes a float result\n{run.code}')
            ctx.count('enabled_statements')
        if n not in disabled and n in base.sigs and n in run.kinds:
            if n not in run.sigs and base.floats[n]:
                return ctx.violation(f'{key}/enabled-quantizers', f'{n} is not disabled but has no quantizers\n{run.code}')


@C.family('layers', quick=60, chunk=4)
def _layers(ctx, i):
    r = ctx.rng
    src, x, m = network(ctx)
    kind = r.choice(['qat', 'qat', 'ptq'])
    c = settings(r, kind)
    ctx.desc = f'{kind} {c} inputs {[tuple(t.shape) for t in x]}\n{src}'
    base = Run(ctx, 'layers/base', kind, m, x, {**c, 'ignore_layerwise_config': True}, 'base')
    names = list(base.config)
    if not names:
        ctx.skip('nothing to select')
    off = sorted(r.sample(names, r.randrange(1, len(names) + 1)))
    way = r.choice(['exclude', 'include', 'file'])
    ctx.desc = f'{way} {off} of {names}\n{ctx.desc}'
    if way == 'exclude':
        lc = {n: False for n in off}
    elif way == 'include':
        lc = {n: True for n in names if n not in off}
        lc['default'] = False
        names = [n for n in names if not n.startswith('rewritten_')]  # known by other names before they are rewritten
    else:
        os.makedirs('sel', exist_ok=True)
        text = open(base.yml).read()
        for n in off:
            text = re.sub(rf'^{re.escape(n)}: true', f'{n}: false', text, flags=re.M)
        open('sel/' + os.path.basename(base.yml), 'w').write(text)
        lc = {}
    run = Run(ctx, f'layers/{way}', kind, m, x, {**c, 'layerwise_config': lc}, 'sel')
    v = compare(ctx, f'layers/{way}', base, run, off, names)
    if v is not None:
        return v
    # reading the written configuration back
    again = Run(ctx, 'layers/again', kind, m, x, c, 'sel', convert=False)
    if definition(again) != definition(run):
        return ctx.violation('layers/again/definition', f'the definition changes when the written configuration is read back\n{run.code}\n{again.code}')
    if again.sigs != run.sigs:
        return ctx.violation('layers/again/quantizers', f'quantizers change when the written configuration is read back: {set(again.sigs.items()) ^ set(run.sigs.items())}')
    for n in off:
        if again.config.get(n, False) is not False:
            return ctx.violation('layers/again/file', f'{n} is enabled in the configuration that is written')
    ctx.ok(src + str(c) + str(off) + way, ctx.desc)


@C.family('actions', quick=30, chunk=3)
def _actions(ctx, i):
    """Whole kinds of layers disabled by an operator action."""
    r = ctx.rng
    src, x, m = network(ctx)
    kind = r.choice(['qat', 'qat', 'ptq'])
    c = {**settings(r, kind), 'ignore_layerwise_config': True}
    ctx.desc = f'{kind} {c} inputs {[tuple(t.shape) for t in x]}\n{src}'
    base = Run(ctx, 'actions/base', kind, m, x, c, 'base')
    present = sorted({type(p).__name__ for p in m.modules() if type(p) in (nn.Conv2d, nn.Conv1d, nn.Linear, nn.ConvTranspose2d, nn.Hardswish, nn.ELU, nn.Sigmoid, nn.Tanh, nn.ReLU6)})
    if not present:
        ctx.skip('no layers')
    cls = r.choice(present)
    ctx.desc = f'disable {cls}\n{ctx.desc}'
    run = Run(ctx, 'actions/disable', kind, m, x, {**c, 'quantize_op_action': {getattr(nn, cls): 'disable'}}, 'act')
    made = dict(re.findall(r'self\.(\w+) = torch\.nn\.(\w+)\(', base.code))
    off = [n for n, k in made.items() if k == cls]
    for n in off:
        if run.floats.get(n) or n in run.sigs and any(run.sigs[n]):
            return ctx.violation('actions/disabled', f'{n} is a {cls} but is quantized {run.sigs.get(n)}\n{run.code}')
        ctx.count('disabled_statements')
    names = [n for n in base.config if n not in off and n in run.config]
    v = compare(ctx, 'actions', base, run, [], names)
    if v is not None:
        return v
    ctx.ok(src + str(c) + cls, ctx.desc)


CONV = 'Conv1d', 'Conv2d', 'ConvReLU1d', 'ConvReLU2d', 'ConvBn1d', 'ConvBn2d', 'ConvBnReLU1d', 'ConvBnReLU2d'


def expected(kind, c, layer):
    """(activation, weight) as (dtype, scheme, lowest, highest); None if not determined by the settings"""
    other = c.get('backend') in ('onnx', 'tensorrt')
    act = (torch.quint8, 'torch.per_tensor_affine' if c['asymmetric'] else 'torch.per_tensor_symmetric', 0, 255)
    if other:
        if not c['asymmetric']:
            act = (torch.qint8, 'torch.per_tensor_symmetric', -128, 127)
        w = (torch.qint8, 'torch.per_tensor_symmetric', -128, 127)
        if not c['per_tensor'] and layer in CONV:
            w = (torch.qint8, 'torch.per_channel_symmetric', -128, 127)
    elif c['per_tensor']:
        w = (torch.qint8, 'torch.per_tensor_symmetric', -128, 127)
    elif layer in CONV:
        w = (torch.qint8, 'torch.per_channel_symmetric', -127, 127)
    else:
        w = (torch.qint8, 'torch.per_tensor_symmetric', -127, 127)
    return act, w


@C.family('schemes', quick=80, chunk=8)
def _schemes(ctx, i):
    """Attributes of every quantizer against the settings."""
    r = ctx.rng
    src, x, m = network(ctx)
    kind = r.choice(['qat', 'qat', 'ptq'])
    c = settings(r, kind)
    if kind == 'qat' and r.random() < 0.25:
        c['backend'] = 'onnx'
    ctx.desc = f'{kind} {c} inputs {[tuple(t.shape) for t in x]}\n{src}'
    run = Run(ctx, 'schemes', kind, m, x, {**c, 'ignore_layerwise_config': True}, 'work', convert=False)
    fixed = 'Sigmoid', 'Tanh', 'Softmax', 'Hardsigmoid'
    for n, p in run.p.named_modules():
        if isinstance(p, (torch.quantization.FakeQuantizeBase, torch.quantization.ObserverBase)):
            continue
        a, w = getattr(p, 'activation_post_process', None), getattr(p, 'weight_fake_quant', None)
        act, weight = expected(kind, c, type(p).__name__)
        for q, want, what in ((a, act, 'results'), (w, weight, 'weights')):
            if not isinstance(q, nn.Module):
                continue
            if what == 'results' and type(p).__name__ in fixed:
                continue
            got = (q.dtype, str(q.qscheme), q.quant_min, q.quant_max)
            if got != want:
                return ctx.violation(f'schemes/{what}', f'{n} ({type(p).__name__}) quantizes {what} as {got} instead of {want}')
            name = type(q).__name__
            if kind == 'qat':
                ok = name == 'FakeQuantizeTFLite' if c.get('rounding_mode') == 'tflite' else 'TFLite' not in name
                if not ok:
                    return ctx.violation(f'schemes/rounding', f'{n} uses {name} with rounding mode {c.get("rounding_mode")}')
            elif what == 'results':
                ok = ('KL' in name) == (c.get('algorithm') == 'kl')
                if not ok:
                    return ctx.violation(f'schemes/algorithm', f'{n} uses {name} with algorithm {c.get("algorithm")}')
            ctx.count(f'{what}_quantizers')
    ctx.ok(src + str(c) + kind, ctx.desc)


@C.family('overrides', quick=40, chunk=4)
def _overrides(ctx, i):
    """An override function for some layers."""
    r = ctx.rng
    src, x, m = network(ctx)
    c = {**settings(r, 'qat'), 'ignore_layerwise_config': True}
    ctx.desc = f'{c} inputs {[tuple(t.shape) for t in x]}\n{src}'
    base = Run(ctx, 'overrides/base', 'qat', m, x, c, 'base', convert=False)
    names = sorted(n for n, s in base.sigs.items() if s[1] is not None)
    if not names:
        ctx.skip('no layers with weights')
    chosen = r.sample(names, r.randrange(1, len(names) + 1))
    fq = torch.quantization.FakeQuantize
    hi = r.choice([15, 63, 127])
    mine = torch.quantization.QConfig(
        activation=fq.with_args(observer=torch.quantization.MinMaxObserver, quant_min=0, quant_max=hi, dtype=torch.quint8, qscheme=torch.per_tensor_affine),
        weight=fq.with_args(observer=torch.quantization.MinMaxObserver, quant_min=-hi // 2, quant_max=hi // 2, dtype=torch.qint8, qscheme=torch.per_tensor_symmetric))
    asked = []

    def override(name, module):
        asked.append(name)
        return mine if name in chosen else None
    ctx.desc = f'override {chosen} up to {hi}\n{ctx.desc}'
    run = Run(ctx, 'overrides', 'qat', m, x, {**c, 'override_qconfig_func': override}, 'over', convert=False)
    if definition(run) != definition(base):
        return ctx.violation('overrides/definition', 'the definition changes with an override function')
    if set(run.sigs) != set(base.sigs):
        return ctx.violation('overrides/layers', f'the quantized layers change: {set(run.sigs) ^ set(base.sigs)}')
    for n in base.sigs:
        if n in chosen:
            a, w = run.sigs[n]
            if not c['per_tensor'] and '.cat(' in run.code:
                a = None  # inputs and results of concatenations share their parameters
            if a is not None and (a[4] != hi or a[5] != 'MinMaxObserver') or w[5] != 'MinMaxObserver' or w[4] != (hi // 2 if c['per_tensor'] else 127) and w[4] != hi // 2:
                return ctx.violation('overrides/chosen', f'{n} has {run.sigs[n]} instead of the override')
            ctx.count('overridden_layers')
        elif run.sigs[n] != base.sigs[n]:
            if not c['per_tensor'] and '.cat(' in run.code and run.sigs[n][1] == base.sigs[n][1]:
                continue
            if any(n.startswith(k + '.') for k in chosen):
                continue
            return ctx.violation('overrides/others', f'{n} has {run.sigs[n]} instead of {base.sigs[n]}')
    ctx.ok(src + str(c) + str(chosen), ctx.desc)


@C.family('statistics', quick=40, chunk=4)
def _stats(ctx, i):
    """Fixed statistics of inputs."""
    r = ctx.rng
    src, x, m = network(ctx)
    kind = r.choice(['qat', 'qat', 'ptq'])
    c = {**settings(r, kind), 'ignore_layerwise_config': True, 'asymmetric': True}
    stats = [(r.choice([0, 128, 114.5, 127]), r.choice([1.0, 128.0, 255.0, 64.25])) for _ in x]
    c['quantized_input_stats'] = stats
    ctx.desc = f'{kind} {c} inputs {[tuple(t.shape) for t in x]}\n{src}'
    run = Run(ctx, 'statistics', kind, m, x, c, 'work')
    for k, (mean, std) in enumerate(stats):
        mod = getattr(run.c, f'fake_quant_{k}', None)
        if mod is None or not hasattr(mod, 'scale'):
            continue
        scale, zp = float(mod.scale), int(mod.zero_point)
        if abs(scale * std - 1) > 1e-6 or zp != round(mean) and zp != int(mean):
            return ctx.violation('statistics/input', f'input {k} is quantized with scale {scale} and zero point {zp} instead of 1/{std} and {mean}')
        ctx.count('inputs_with_statistics')
    ctx.ok(src + str(c), ctx.desc)


if __name__ == '__main__':
    sys.exit(C.main())
