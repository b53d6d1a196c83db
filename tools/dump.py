"""dump.py cNN family start stop [seed] [parallel]: runs cases in worker processes and prints every violation in full, one block per case."""
import contextlib
import io
import multiprocessing as mp
import os
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'checks')]
name, fam, a, b = sys.argv[1:3] + [int(x) for x in sys.argv[3:5]]
seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
par = int(sys.argv[6]) if len(sys.argv) > 6 else 8


def work(idx):
    import importlib
    os.chdir(tempfile.mkdtemp(prefix='dump_'))
    with open(os.devnull, 'w') as n, contextlib.redirect_stdout(n), contextlib.redirect_stderr(n):
        os.dup2(n.fileno(), 2)
        m = importlib.import_module(name)
        import logging
        logging.disable(50)
        return m.C.run_cases(m.C.families[fam], idx, seed, 'quick')


if __name__ == '__main__':
    idx = list(range(a, b))
    k = max(1, (len(idx) + par * 3 - 1) // (par * 3))
    chunks = [idx[i:i + k] for i in range(0, len(idx), k)]
    n = bad = 0
    with mp.get_context('spawn').Pool(par) as p:
        for recs in p.imap_unordered(work, chunks):
            for rec in recs:
                n += 1
                for v in rec.get('violations', []):
                    bad += 1
                    print(f'=== {rec["family"]}:{rec["index"]} {v["key"]}\n{v["msg"]}\n--- {v["desc"]}')
                    if os.environ.get('DETAILS'):
                        for q, d in v['details'].items():
                            print('   ', q, d)
                if rec.get('error'):
                    print(f'=== {rec["family"]}:{rec["index"]} ERROR {rec["error"][-600:]}')
    print(n, 'cases', bad, 'violations')
