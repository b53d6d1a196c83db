"""Case runner shared by all checks.

A check is a set of *families*.  A family has a body `run(ctx, i)` which generates case number `i`
from `ctx.rng` / the seeded torch and numpy generators, drives the real code under test and feeds the
observations to monitors.  Verdicts are three-valued per case:

  * ctx.ok(...)          an oracle looked at real observations and accepted them
  * ctx.violation(...)   an oracle rejected observations (or the code under test raised / the process died)
  * anything else        harness error, timeout or a case which observed nothing -> inconclusive

Cases run in forked children, one child per chunk of cases, with a private scratch directory as cwd.  A
violation is only reported if it shows again when its chunk is replayed in a fresh child.
"""
import argparse
import collections
import contextlib
import hashlib
import json
import os
import random
import re
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

for _k, _v in {
    'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'TF_CPP_MIN_LOG_LEVEL': '3', 'CUDA_VISIBLE_DEVICES': '',
    'LOGLEVEL': 'ERROR', 'TF_ENABLE_ONEDNN_OPTS': '0', 'OPENBLAS_NUM_THREADS': '1',
}.items():
    os.environ[_k] = _v
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class SutError(Exception):
    """The code under test failed where it must not; already recorded as a violation."""


class Skip(Exception):
    """The case observed nothing it could judge."""


def _short(s, n=300):
    s = str(s)
    return s if len(s) <= n else s[:n] + '...'


def norm_msg(e):
    """Exception text without run-dependent parts."""
    s = f'{type(e).__name__}: {e}'
    s = s.split('\n')[0]
    s = re.sub(r'0x[0-9a-f]+', '0x', s)
    s = re.sub(r'-?\d+(\.\d+)?(e[-+]?\d+)?', 'N', s)
    s = re.sub(r"/[\w/.\-]+", 'PATH', s)
    return s[:160]


class Ctx:
    def __init__(self, check, family, index, seed, tier):
        self.check, self.family, self.index, self.seed, self.tier = check, family, index, seed, tier
        h = int(hashlib.sha256(f'{seed}/{check.pid}/{family}/{index}'.encode()).hexdigest()[:12], 16)
        self.case_seed = h % (2 ** 31)
        self.rng = random.Random(h)
        self.oks = []          # (key, desc)
        self.violations = []   # dict
        self.counters = collections.Counter()
        self.skips = []
        self.desc = None
        self.emit = None
        self.prefix = ''

    # -- recording -------------------------------------------------------------------------------------------------
    def ok(self, key, desc=None):
        self.oks.append((str(key), None if desc is None else _short(desc, 600)))

    def violation(self, key, msg, **details):
        self.violations.append({'key': f'{self.family}/{self.prefix}{key}', 'msg': _short(msg, 1500), 'desc': _short(self.desc, 1500),
                                'details': {k: _short(v, 2000) for k, v in details.items()}})

    def count(self, name, n=1):
        self.counters[name] += n

    def stage(self, key):
        """Names what is about to run, in case the process does not survive it."""
        if self.emit is not None:
            self.emit({'stage': f'{self.family}/{key}', 'desc': _short(self.desc, 1000)})

    def skip(self, why):
        raise Skip(why)

    # -- code under test ---------------------------------------------------------------------------------------------
    @contextlib.contextmanager
    def sut(self, key, what):
        """Code under test: an exception raised inside is a violation of the property with the given key."""
        try:
            yield
        except (SutError, Skip):
            raise
        except (MemoryError, KeyboardInterrupt):
            raise
        except BaseException as e:  # SystemExit included: the tracer quits the process on failure
            tb = traceback.format_exc()
            self.violation(f'{key}/raised', f'{what} raised {type(e).__name__}: {_short(e, 400)}', error=norm_msg(e), traceback=tb[-1800:])
            raise SutError(key) from None


class Family:
    def __init__(self, name, fn, quick, thorough, chunk, timeout, min_ok):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.chunk, self.timeout, self.min_ok = chunk, timeout, min_ok


class Check:
    def __init__(self, pid, rule, assumptions=(), preload=('torch', 'tnn')):
        self.pid, self.rule, self.assumptions, self.preload = pid, rule, list(assumptions), preload
        self.families = {}

    def family(self, name, quick, thorough=None, chunk=8, timeout=240, min_ok=0.5):
        """Registers a family; `min_ok`: smallest fraction of its cases which must have been judged."""
        def deco(fn):
            self.families[name] = Family(name, fn, quick, quick * 8 if thorough is None else thorough, chunk, timeout, min_ok)
            return fn
        return deco

    # -- execution ---------------------------------------------------------------------------------------------------
    def _preload(self):
        import warnings
        warnings.filterwarnings('ignore')
        import torch
        torch.set_num_threads(1)
        if 'tf' in self.preload:
            import tensorflow  # noqa
        if 'tnn' in self.preload:
            import tinynn.converter  # noqa
            import tinynn.graph.tracer as tr
            import tinynn.graph.quantization.quantizer  # noqa
            import tinynn.prune  # noqa
            if 'warm' in self.preload:
                # Warm caches of function tables in a way that does not matter for the results
                with open(os.devnull, 'w') as dn, contextlib.redirect_stdout(dn):
                    try:
                        tr.trace(torch.nn.Sequential(torch.nn.Conv2d(1, 1, 1)).eval(), torch.zeros(1, 1, 2, 2))
                    except BaseException:
                        pass
        import logging
        logging.disable(logging.CRITICAL)

    def run_cases(self, fam, indices, seed, tier, emit=None):
        import numpy as np
        import torch
        out = []
        for i in indices:
            ctx = Ctx(self, fam.name, i, seed, tier)
            ctx.emit = emit
            random.seed(ctx.case_seed)
            np.random.seed(ctx.case_seed)
            torch.manual_seed(ctx.case_seed)
            rec = {'family': fam.name, 'index': i}
            t0 = time.time()
            try:
                fam.fn(ctx, i)
            except SutError:
                pass
            except Skip as e:
                rec['skip'] = str(e)
            except BaseException as e:
                rec['error'] = _short(traceback.format_exc()[-1500:], 1500)
                if isinstance(e, (KeyboardInterrupt,)):
                    raise
            rec.update(oks=ctx.oks, violations=ctx.violations, counters=dict(ctx.counters), desc=_short(ctx.desc, 600),
                       t=round(time.time() - t0, 3))
            out.append(rec)
        return out

    def _child(self, fam, indices, seed, tier, scratch, wfd):
        """Runs in a forked child; streams one JSON line per case."""
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        logf = os.open(os.path.join(scratch, 'log.txt'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(logf, 1)
        os.dup2(logf, 2)
        def emit(m):
            data = (json.dumps(m, default=str) + '\n').encode()
            while data:
                n = os.write(wfd, data)
                data = data[n:]

        for i in indices:
            emit({'start': i})
            for rec in self.run_cases(fam, [i], seed, tier, emit):
                emit(rec)
        os.close(wfd)

    def _spawn(self, job, scratch_root):
        fam, indices, seed, tier, jid = job
        r, w = os.pipe()
        scratch = os.path.join(scratch_root, f'c{jid}')
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.setsid()
                os.close(r)
                self._child(fam, indices, seed, tier, scratch, w)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        return {'pid': pid, 'fd': r, 'buf': b'', 'job': job, 't0': time.time(), 'last': time.time(), 'recs': [], 'cur': None, 'stage': None,
                'scratch': scratch}

    def _pump(self, jobs, nproc, soft_deadline, scratch_root, verbose=False):
        """Runs the jobs; returns list of finished worker dicts and the jobs left undone."""
        pending = collections.deque(jobs)
        active, done = [], []
        while pending or active:
            while pending and len(active) < nproc:
                if soft_deadline and time.time() > soft_deadline:
                    break
                active.append(self._spawn(pending.popleft(), scratch_root))
            if not active:
                break
            rl, _, _ = select.select([a['fd'] for a in active], [], [], 1.0)
            now = time.time()
            for a in list(active):
                fin = False
                if a['fd'] in rl:
                    data = os.read(a['fd'], 1 << 20)
                    if data:
                        a['last'] = now
                        a['buf'] += data
                        *lines, a['buf'] = a['buf'].split(b'\n')
                        for ln in lines:
                            m = json.loads(ln)
                            if 'start' in m:
                                a['cur'], a['stage'] = m['start'], None
                            elif 'stage' in m:
                                a['stage'] = m
                            else:
                                a['recs'].append(m)
                                a['cur'] = None
                    else:
                        fin = True
                elif now - a['last'] > a['job'][0].timeout:
                    a['timeout'] = True
                    with contextlib.suppress(ProcessLookupError):
                        os.killpg(a['pid'], signal.SIGKILL)
                    fin = True
                if fin:
                    _, st = os.waitpid(a['pid'], 0)
                    with contextlib.suppress(ProcessLookupError, PermissionError):
                        os.killpg(a['pid'], signal.SIGKILL)
                    a['status'] = st
                    os.close(a['fd'])
                    if a.get('timeout'):
                        a['outcome'] = 'timeout'
                    elif os.WIFSIGNALED(st):
                        a['outcome'] = f'signal {os.WTERMSIG(st)}'
                    elif os.WEXITSTATUS(st) != 0:
                        a['outcome'] = f'exit {os.WEXITSTATUS(st)}'
                    else:
                        a['outcome'] = 'done'
                    if a['outcome'] != 'done':
                        with contextlib.suppress(OSError):
                            a['log'] = open(os.path.join(a['scratch'], 'log.txt'), errors='replace').read()[-1500:]
                    shutil.rmtree(a['scratch'], ignore_errors=True)
                    active.remove(a)
                    done.append(a)
                    if a['outcome'] != 'done' and a['cur'] is not None:
                        fam_, idx, seed_, tier_, jid_ = a['job']
                        rest = idx[idx.index(a['cur']) + 1:]
                        if rest:  # the cases behind the one which did not come back
                            pending.append((fam_, rest, seed_, tier_, f'{jid_}r'))
        return done, list(pending)

    def known(self):
        path = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(path):
            return []
        with open(path) as f:
            return [k for k in json.load(f)['findings'] if k['property'] == self.pid and k['status'] == 'known']

    def main(self, argv=None):
        ap = argparse.ArgumentParser()
        ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
        ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
        ap.add_argument('--only', help='comma separated families')
        ap.add_argument('--replay', help='replay file of a violation')
        ap.add_argument('--case', help='family:index, run in this process with output')
        ap.add_argument('--scale', type=float, default=1.0)
        ap.add_argument('-j', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4)
        ap.add_argument('-v', action='store_true')
        ap.add_argument('--no-evidence', action='store_true')
        ap.add_argument('--keys', action='store_true', help='list all violation keys')
        args = ap.parse_args(argv)
        t0 = time.time()
        seed, tier = args.seed, args.tier
        sys.stdout.reconfigure(line_buffering=True)

        if args.replay:
            with open(args.replay) as f:
                r = json.load(f)
            seed, tier = r['seed'], r['tier']
            self._preload()
            return self._run_replay(r, seed, tier)
        self._preload()
        if args.case:
            fam, idx = args.case.rsplit(':', 1)
            d = tempfile.mkdtemp(prefix='verif_case_')
            os.chdir(d)
            try:
                for rec in self.run_cases(self.families[fam], [int(idx)], seed, tier):
                    print(json.dumps(rec, indent=1, default=str).replace('\\n', '\n'))
            finally:
                os.chdir('/')
                shutil.rmtree(d, ignore_errors=True)
            return 0

        jobs, jid = [], 0
        planned = collections.Counter()
        for fam in self.families.values():
            if args.only and fam.name not in args.only.split(','):
                continue
            n = fam.quick if tier == 'quick' else fam.thorough
            n = max(1, int(n * args.scale))
            planned[fam.name] = n
            for a in range(0, n, fam.chunk):
                jobs.append((fam, list(range(a, min(n, a + fam.chunk))), seed, tier, jid))
                jid += 1
        # interleave families so that a slow machine that hits the soft deadline has still seen all of them
        order = {}
        for j in jobs:
            order.setdefault(j[0].name, []).append(j)
        ranked = []
        for name, js in order.items():
            for k, j in enumerate(js):
                ranked.append(((k + 0.5) / len(js), j))
        ranked.sort(key=lambda x: x[0])
        jobs = [j for _, j in ranked]

        scratch_root = tempfile.mkdtemp(prefix=f'verif_{self.pid}_')
        soft = t0 + (420 if tier == 'quick' else 3000)
        try:
            done, left = self._pump(jobs, args.j, soft, scratch_root, args.v)
            code = self._report(args, seed, tier, planned, done, left, scratch_root, t0)
        finally:
            shutil.rmtree(scratch_root, ignore_errors=True)
        return code

    def _run_replay(self, r, seed, tier):
        fam = self.families[r['family']]
        root = tempfile.mkdtemp(prefix=f'verif_{self.pid}_')
        try:
            done, _ = self._pump([(fam, r['chunk'], seed, tier, 0)], 1, None, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        hit = 0
        for a in done:
            for v in self._violations_of(a):
                print(json.dumps(v, indent=1).replace('\\n', '\n'))
                hit += v['key'] == r['violation']['key']
        print('reproduced' if hit else 'NOT reproduced')
        return 1 if hit else 0

    def _violations_of(self, a):
        """All violations seen in a finished worker, including the death of the process."""
        vs = []
        fam = a['job'][0]
        for rec in a['recs']:
            for v in rec['violations']:
                vs.append(dict(v, family=fam.name, index=rec['index']))
        if a['outcome'].startswith('signal') and a['outcome'] not in ('signal 9', 'signal 15') and a['cur'] is not None:
            st = a['stage'] or {'stage': fam.name, 'desc': None}
            vs.append({'key': f'{st["stage"]}/process-died', 'msg': f'the process running the code under test died: {a["outcome"]}',
                       'desc': st['desc'], 'details': {'log': a.get('log', '')}, 'family': fam.name, 'index': a['cur']})
        return vs

    def _report(self, args, seed, tier, planned, done, left, scratch_root, t0):
        import fnmatch
        known = self.known()
        evals = 0
        keys = set()
        samples = {}
        fam_stats = {f: collections.Counter() for f in planned}
        counters = collections.Counter()
        problems, minor = [], []
        viol, known_hits = [], collections.Counter()
        for a in done:
            fam = a['job'][0]
            st = fam_stats[fam.name]
            for rec in a['recs']:
                st['cases'] += 1
                st['ms'] += int(rec['t'] * 1000)
                n = len(rec['oks'])
                evals += n
                st['judged'] += bool(n or rec['violations'])
                st['verdicts'] += n
                for k, d in rec['oks']:
                    keys.add(f'{fam.name}:{k}')
                    s = samples.setdefault(fam.name, [])
                    if d and len(s) < 2:
                        s.append({'family': fam.name, 'index': rec['index'], 'case': d})
                for k, v in rec['counters'].items():
                    counters[k] += v
                if rec.get('skip'):
                    st['skipped'] += 1
                    st['skip:' + rec['skip'][:60]] += 1
                if rec.get('error'):
                    st['errors'] += 1
                    minor.append(f'{fam.name}:{rec["index"]} harness error: {rec["error"]}')
            if a['outcome'] == 'timeout':
                minor.append(f'{fam.name}:{a["cur"]} timed out after {fam.timeout}s')
            elif a['outcome'] != 'done' and not a['outcome'].startswith('signal'):
                minor.append(f'{fam.name}:{a["cur"]} worker ended: {a["outcome"]} {a.get("log", "")}')
            elif a['outcome'] in ('signal 9', 'signal 15'):
                minor.append(f'{fam.name}:{a["cur"]} worker killed')
            for v in self._violations_of(a):
                hit = [k for k in known if fnmatch.fnmatchcase(v['key'], k['key'])]
                if hit:
                    known_hits[hit[0]['key']] += 1
                else:
                    viol.append((a, v))
        if args.keys:
            c = collections.Counter(v['key'] for _, v in viol)
            ex = {}
            for a, v in viol:
                ex.setdefault(v['key'], v)
            for k, n in sorted(c.items()):
                print(f'{n:5d} {k}  e.g. {ex[k]["family"]}:{ex[k]["index"]} {_short(ex[k]["msg"], 220)} || {_short(ex[k]["desc"], 200)}')
            print('CASES ' + ' '.join(sorted({f'{v["family"]}:{v["index"]}' for _, v in viol})))

        # confirm violations by replaying their chunk in a fresh process
        confirmed, unconfirmed = [], []
        by_key = {}
        for a, v in viol:
            by_key.setdefault(v['key'], []).append((a, v))
        n_replayed = 0
        for key, lst in sorted(by_key.items()):
            ok = False
            for a, v in lst[:2]:
                if n_replayed >= 12 and confirmed:
                    break
                n_replayed += 1
                upto = a['job'][1][:a['job'][1].index(v['index']) + 1]
                again, _ = self._pump([(a['job'][0], upto, seed, tier, f'r{n_replayed}')], 1, None, scratch_root)
                if any(w['key'] == key and w['index'] == v['index'] for x in again for w in self._violations_of(x)):
                    confirmed.append((upto, v))
                    ok = True
                    break
            if not ok:
                unconfirmed.append(lst[0][1])

        for name, st in fam_stats.items():
            n = planned[name]
            if st['judged'] < self.families[name].min_ok * min(n, st['cases'] or n) or st['cases'] == 0:
                problems.append(f'family {name}: only {st["judged"]} of {n} cases judged ({st["cases"]} run, {st["skipped"]} skipped)')
        # a few cases without an answer are reported but don't take the verdict of all the others away
        if len(minor) > 0.01 * sum(s['cases'] for s in fam_stats.values()):
            problems += minor
        if left:
            counters['chunks_not_run_at_soft_deadline'] = len(left)

        ev = {
            'property': self.pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': evals, 'distinct_nontrivial': len(keys), 'rule': self.rule,
                'samples': [s for v in samples.values() for s in v][:40] or [{'none': True}],
                'families': {k: dict(v) for k, v in fam_stats.items()},
                'observations': dict(counters), 'known_findings_seen': dict(known_hits),
                'inconclusive': (problems + [m for m in minor if m not in problems])[:20],
            },
            'assumptions': self.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed),
        }
        if not args.no_evidence and not args.only:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        print(f'{self.pid} tier={tier} seed={seed}: {evals} verdicts, {len(keys)} distinct, '
              f'{sum(s["cases"] for s in fam_stats.values())} cases, {len(problems) + (0 if minor and minor[0] in problems else len(minor))} inconclusive, {ev["wall_s"]}s')
        if args.v:
            for name, st in fam_stats.items():
                print('  ', name, dict(st))
            print('  ', dict(counters))
        for k in known:
            n = known_hits.get(k['key'], 0)
            print(f'KNOWN-FINDING: property={self.pid} {k["what"]} [{"seen %d times" % n if n else "not reached in this run"}]')
        for n, (chunk, v) in enumerate(confirmed[:20]):
            rdir = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f'{self.pid}_{n}.json')
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'family': v['family'], 'chunk': chunk, 'seed': seed, 'tier': tier, 'violation': v}, f, indent=1)
            print(f'VIOLATION property={self.pid} replay={path}')
            print(f'  {v["key"]}: {v["msg"]}\n  case {v["family"]}:{v["index"]}: {v["desc"]}')
        for v in unconfirmed[:10]:
            print(f'UNCONFIRMED {v["key"]} ({v["family"]}:{v["index"]}): {v["msg"]}')
        if confirmed:
            return 1
        for p in (problems + [m for m in minor if m not in problems])[:10]:
            print('INCONCLUSIVE', p)
        if problems or len(unconfirmed) > 2 or not evals:
            return 2
        return 0
