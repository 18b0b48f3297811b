#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property of VeRyPy.

1. contracts: every contract whose postconditions carry the property is re-proved from /repo's current source
   (contracts/*.py over the verification condition generator in pyvc/, discharged by z3).
2. run-time contracts: the functions outside the verifier's reach are executed on generated inputs (harness/*.py)
   and their postconditions evaluated (bounded; never counted as proved).

exit 1 + VIOLATION line: a generated input breaks a contract in the real code, or an obligation has a counterexample.
exit 0: no obligation failed and no input broke a contract (what remained undecided is named in the evidence)."""
import sys, os, json, time, argparse, subprocess, traceback, importlib, multiprocessing as mp, signal, glob, shutil, tempfile
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
T0 = time.time()
PY = '/opt/venv/bin/python'
EV = os.path.join(ROOT, 'evidence')
import claims


def load_contracts(pid):
    out = []
    for f in sorted(glob.glob(os.path.join(ROOT, 'contracts', '*.py'))):
        m = os.path.basename(f)[:-3]
        if m.startswith('_'): continue
        M = importlib.import_module('contracts.' + m)
        for c in getattr(M, 'ALL', []):
            if pid in c.props or pid == 'C19' and c.frame: out.append(c)
    return out


def child(conn, c, case, pid):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        from pyvc.contract import run_case
        r = run_case(c, case, pid)
    except BaseException:
        r = dict(contract=c.name(), target=c.target, case=str(case), status='crash', why=traceback.format_exc()[-1500:], obls=[], wall=0)
    try: conn.send(r)
    except BaseException:
        conn.send(dict(contract=c.name(), target=c.target, case=str(case), status='crash', why='result not sendable', obls=[], wall=0))
    conn.close()
    os._exit(0)


class Harness:
    def __init__(self, pid, seed, tmp):
        self.pid, self.seed, self.tmp, self.w, self.n = pid, seed, tmp, [], 0
    def start(self, k, seconds, cpu):
        env = dict(os.environ, PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg',
                   PYTHONDONTWRITEBYTECODE='1', HOME=self.tmp)
        for _ in range(k):
            i = self.n; self.n += 1
            out = os.path.join(self.tmp, 'w%d.json' % i)
            opt = ['-O'] if i % 3 != 2 else []
            p = subprocess.Popen([PY, '-B'] + opt + [os.path.join(ROOT, 'harness', 'run.py'), self.pid, '--seconds', str(seconds),
                                  '--seed', str(self.seed * 1000 + i), '--out', out, '--cpu', str(cpu)], env=env, cwd=self.tmp,
                                 stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'), start_new_session=True)
            self.w.append(dict(p=p, out=out, end=time.time() + seconds + cpu + 20, state='running', opt=bool(opt)))
    def poll(self):
        """True while workers run"""
        alive = False
        for w in self.w:
            if w['state'] != 'running': continue
            if w['p'].poll() is not None:
                w['state'] = 'done' if os.path.exists(w['out']) else 'crashed'
            elif time.time() > w['end']:
                self.kill(w); w['state'] = 'killed'
            else: alive = True
        return alive
    def kill(self, w):
        try: os.killpg(w['p'].pid, signal.SIGKILL)
        except OSError: pass
        w['p'].wait()
    def stop(self):
        for w in self.w:
            if w['state'] == 'running': self.kill(w); w['state'] = 'killed'
    def results(self):
        return [json.load(open(w['out'])) for w in self.w if w['state'] == 'done']
    def failures(self):
        return sorted([r['failure'] for r in self.results() if r['failure']], key=lambda f: f['size'])


def main():
    a = argparse.ArgumentParser()
    a.add_argument('pid'); a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--jobs', type=int, default=0)
    o = a.parse_args()
    pid, tier = o.pid, o.tier
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    cl = claims.CLAIMS[pid]
    os.makedirs(os.path.join(EV, 'replay'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    h = Harness(pid, seed, tmp)
    try:
        return run(o, pid, tier, seed, cl, tmp, h)
    finally:
        h.stop()
        shutil.rmtree(tmp, ignore_errors=True)


def run(o, pid, tier, seed, cl, tmp, h):
    ncpu = o.jobs or min(8, os.cpu_count() or 1)
    quick = tier == 'quick'
    cs = load_contracts(pid)
    jobs = []
    for c in cs:
        allc = list(c.cases())
        pick = [x for x in allc if c.quick(x, pid)] if quick else allc
        if pid == 'C19':
            # the frame does not depend on the case much: the cases with the most code
            allc = [x for x in allc if c.quick(x, (c.props or ('',))[0])] if quick else allc
            pick = allc[-c.frame_cases:] if quick else allc
        if not quick: c.budget *= 3
        for case in pick: jobs.append((c.weight(case), len(jobs), c, case))
    jobs.sort(key=lambda x: (-x[0], x[1]))
    skipped = 0 if not quick else sum(len(list(c.cases())) for c in cs) - len(jobs)
    hs = cl['harness'][0 if quick else 1] if cl.get('harness') else 0
    nh = 0 if not hs else (3 if jobs else ncpu)
    if not quick and hs: nh = max(3, ncpu // 2) if jobs else ncpu
    cpu = 45 if quick else 120
    if nh: h.start(nh, hs, cpu)
    # ---- contracts
    limit = T0 + (cl.get('limit', 150) if quick else 7200)
    todo, running, res = list(jobs), [], []
    par = max(1, ncpu - nh) if jobs else 0
    while todo or running:
        par = ncpu if not h.poll() else max(1, ncpu - nh)
        while todo and len(running) < par and time.time() < limit:
            _, _, c, case = todo.pop(0)
            r, w = mp.Pipe(False)
            p = mp.Process(target=child, args=(w, c, case, pid), daemon=True)
            p.start(); w.close()
            running.append((p, r, c, case))
        for x in list(running):
            p, r, c, case = x
            got = None
            if r.poll(0):
                try: got = r.recv()
                except EOFError: got = dict(status='crash', why='prover process died', obls=[])
            elif not p.is_alive(): got = dict(status='crash', why='prover process died', obls=[])
            elif time.time() > limit + 5:
                p.kill(); got = dict(status='timeout', why='time limit of the check', obls=[])
            if got is not None:
                got.setdefault('contract', c.name()); got.setdefault('target', c.target); got.setdefault('case', str(case))
                res.append(got); running.remove(x); p.join(1); r.close()
        if not running and time.time() >= limit:
            for _, _, c, case in todo:
                res.append(dict(contract=c.name(), target=c.target, case=str(case), status='timeout', why='time limit of the check', obls=[]))
            todo = []
        time.sleep(.02)
    while h.poll(): time.sleep(.05)
    failed = [(r, ob) for r in res for ob in r['obls'] if ob[1] == 'failed']
    fails = h.failures()
    # replay the verifier's counterexamples on the real code
    replayed = 0
    if failed and not fails and cl.get('harness'):
        for r, ob in failed:
            d = ob[2]
            if isinstance(d, dict) and d.get('harness_case') is not None:
                replayed += 1
                if replayed > 12: break
                f = os.path.join(tmp, 'cex.json'); json.dump({'case': d['harness_case']}, open(f, 'w'))
                try:
                    p = subprocess.run([PY, '-B', '-O', os.path.join(ROOT, 'harness', 'run.py'), pid, '--replay', f], capture_output=True,
                                       text=True, timeout=120, cwd=tmp, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg'))
                except subprocess.TimeoutExpired: continue
                if p.returncode == 1 and 'VIOLATED: ' in p.stdout:
                    fails = [dict(size=0, case=d['harness_case'], message=p.stdout.split('VIOLATED: ', 1)[1].strip(),
                                  from_obligation='%s %s: %s' % (r['contract'], r['case'], ob[0]))]
                    break
        if not fails:
            # look harder for a failing input before reporting the obligation alone
            h.start(ncpu, 30 if quick else 300, cpu)
            while h.poll(): time.sleep(.05)
            fails = h.failures()
    return verdict(o, pid, tier, seed, cl, cs, res, failed, fails, h, skipped, replayed)


def verdict(o, pid, tier, seed, cl, cs, res, failed, fails, h, skipped, replayed):
    hr = h.results()
    nob = sum(len(r['obls']) for r in res)
    nok = sum(1 for r in res for ob in r['obls'] if ob[1] == 'proved')
    und = [dict(contract=r['contract'], case=r['case'], status=r['status'], why=str(r.get('why', ''))[:400]) for r in res if r['status'] not in ('ok', 'failed')]
    per = {}
    for r in res:
        d = per.setdefault(r['contract'], dict(function=r['target'], cases=0, proved_cases=0, obligations=0, discharged=0, paths=0, solver_s=0.0))
        d['cases'] += 1; d['proved_cases'] += r['status'] == 'ok'
        d['obligations'] += len(r['obls']); d['discharged'] += sum(1 for ob in r['obls'] if ob[1] == 'proved')
        d['paths'] += r.get('paths', 0); d['solver_s'] = round(d['solver_s'] + r.get('solver_s', 0), 2)
    names = sorted({ob[0] for r in res for ob in r['obls']})
    # vacuity guard: a postcondition written in a contract that no path of any of its cases reached decides nothing
    never = sorted('%s: %s' % (c.name(), n) for c in cs for n in written(c, pid) - {ob[0] for r in res if r['contract'] == c.name() for ob in r['obls']}
                   if any(r['contract'] == c.name() and r['status'] == 'ok' for r in res))
    viol, why = None, None
    if fails:
        f = fails[0]
        path = os.path.join(EV, 'replay', '%s.json' % pid)
        json.dump(dict(property=pid, kind='failing-input', message=f['message'], case=f['case'], from_obligation=f.get('from_obligation'),
                       failed_obligations=sorted({'%s %s: %s' % (r['contract'], r['case'], ob[0]) for r, ob in failed})[:50],
                       replay='%s -B -O harness/run.py %s --replay %s' % (PY, pid, os.path.relpath(path, ROOT))), open(path, 'w'), indent=1)
        viol = 'VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, ROOT))
        why = f['message']
    elif failed:
        path = os.path.join(EV, 'replay', '%s.json' % pid)
        json.dump(dict(property=pid, kind='failed-obligation',
                       obligations=[dict(function=r['target'], contract=r['contract'], case=r['case'], obligation=ob[0], verifier='z3: sat',
                                         counterexample=ob[2]) for r, ob in failed[:40]], total=len(failed),
                       replay='python3-vt check.py %s' % pid), open(path, 'w'), indent=1, default=str)
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, os.path.relpath(path, ROOT))
        why = 'obligation %s of %s %s' % (failed[0][1][0], failed[0][0]['target'], failed[0][0]['case'])
    ev = sum(r['evaluations'] for r in hr)
    cov = {}
    if cs:
        cov.update(obligations=nob, discharged=nok, checker_cmd='python3-vt check.py %s --tier %s' % (pid, tier),
                   trusted_base=claims.TRUSTED + cl.get('trusted', []), back_end='z3 ' + z3v(), solver_s=round(sum(r.get('solver_s', 0) for r in res), 1),
                   queries=sum(r.get('queries', 0) for r in res), contracts=per,
                   functions_under_contract=sorted({r['target'] for r in res}),
                   functions_inlined=sorted({u for r in res for u in r.get('used', [])}),
                   callee_contracts_used=sorted({u for r in res for u in r.get('summ', [])}),
                   obligation_names=names[:200], cases_left_to_thorough_tier=skipped, engine_lemmas=prove_lemmas(), undecided=und, postconditions_not_reached=never, counterexamples_replayed=replayed)
    if h.n:
        cov.update(evaluations=ev, distinct_nontrivial=sum(r['distinct'] for r in hr), rule=cl['rule'],
                   samples=[s for r in hr for s in r['samples']][:4], bounded_part=cl['bounded'],
                   workers=[dict(seed=r['seed'], evaluations=r['evaluations'], optimized=r['optimized']) for r in hr],
                   workers_without_result=[dict(state=w['state'], err=tail(w['out'] + '.err'), case=tail(w['out'] + '.cur', 1500)) for w in h.w if w['state'] != 'done'])
    if cl['level'] == 'other' or not cs: cov['explanation'] = cl['note']
    json.dump(dict(property=pid, tier=tier, seed=seed, level=cl['level'], coverage=cov, assumptions=claims.ASSUMPTIONS + cl.get('assume', []),
                   wall_s=round(time.time() - T0, 2), violations=1 if viol else 0), open(os.path.join(EV, pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d/%d obligations discharged (%d functions, %d undecided cases), %d bounded evaluations, %.1f s'
          % (pid, nok, nob, len(per), len(und), ev, time.time() - T0))
    for u in und[:5]: print('  undecided: %(contract)s %(case)s %(status)s %(why)s' % u)
    for u in never: print('  not reached: ' + u)
    for k in known(pid): print(k)
    if viol:
        print('  ' + str(why)[:600]); print(viol); return 1
    if nob == 0 and ev == 0: print('  nothing could be explored')
    return 0


def written(c, pid):
    import inspect, re
    out = set()
    for k in type(c).__mro__:
        if k.__name__ not in ('Contract', 'object'): out |= set(re.findall(r"oblige\('(%s:[^'%%]+)', (?!False\))" % pid, inspect.getsource(k)))
    return out


def known(pid):
    out = []
    for l in open(os.path.join(ROOT, 'known_findings.txt')):
        if l.startswith('KNOWN-FINDING: property=%s ' % pid): out.append(l.strip())
    return out


def tail(f, n=800):
    try: return open(f).read()[-n:]
    except OSError: return ''


def prove_lemmas():
    from pyvc import lemmas
    return {k: 'proved' if v else 'NOT PROVED' for k, v in lemmas.prove().items()}


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__': sys.exit(main())
