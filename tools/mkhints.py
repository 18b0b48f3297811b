#!/usr/bin/env python3
"""mkhints.py MODULE [Contract...]: proves every case from scratch and stores its loop frames and refuted candidate invariants in
/verif/hints (see pyvc.contract.hints)."""
import sys, os, time, pickle, zlib, importlib, multiprocessing as mp
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R); sys.dont_write_bytecode = True
from pyvc import engine as E
from pyvc.contract import hfile, HDIR, export, hints


def one(a):
    m, n, i = a
    c = [c for c in importlib.import_module('contracts.' + m).ALL if c.name() == n][0]
    case = list(c.cases())[i]
    t = time.time()
    try:
        p = E.Proof(c, case); p.run(c.budget * 5)
        bad = sorted({o[0] for o in p.obls if o[1] != 'proved'})
        return a, repr(case), None if bad else pickle.dumps(export(p)), str(bad or ''), time.time() - t
    except BaseException as e: return a, repr(case), None, repr(e)[:200], time.time() - t


if __name__ == '__main__':
    m, names = sys.argv[1], sys.argv[2:]
    os.makedirs(HDIR, exist_ok=True)
    cs = [c for c in importlib.import_module('contracts.' + m).ALL if not names or c.name() in names]
    todo = [(m, c.name(), i) for c in cs for i in range(len(list(c.cases()))) if 'NEW' not in os.environ or repr(list(c.cases())[i]) not in hints(c)]
    with mp.Pool(int(os.environ.get('JOBS', 8)), maxtasksperchild=4) as pool:
        for a, case, h, why, w in pool.imap_unordered(one, todo):
            c = [c for c in cs if c.name() == a[1]][0]
            print('%s %s %s %s %.1f s' % (a[1], case, 'ok' if h else 'NO HINT', why, w), flush=True)
            if h:
                d = hints(c); d[case] = pickle.loads(h)
                open(hfile(c), 'wb').write(zlib.compress(pickle.dumps(d), 9))
