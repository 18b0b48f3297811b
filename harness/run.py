"""Bounded run-time contract checking: one worker.
  run.py PID --seconds S --seed N --out FILE [--cpu LIMIT]
  run.py PID --replay FILE          re-runs the case in FILE; exit 1 if it still breaks the contract"""
import sys, os, json, time, random, signal, traceback, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
WHERE = {}
for _m, _ids in (('ops', 'C04 C05 C06 C07 C08 C09 C10'), ('heur', 'C01 C02 C03 C14 C15 C19 C21 C24'),
                 ('base', 'C11 C12 C13 C16 C17 C18 C22 C23')):
    for _i in _ids.split(): WHERE[_i] = _m


class Hang(BaseException): pass
def _hang(*a): raise Hang()


def one(check, case, limit):
    """None, or how the contract is broken"""
    signal.signal(signal.SIGVTALRM, _hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        return check(case)
    except Hang:
        return 'did not return within %g s of CPU time' % limit
    except (KeyboardInterrupt, MemoryError): raise
    except BaseException as e:
        tb = traceback.format_exc().strip().splitlines()
        return 'raised %s: %s | %s' % (type(e).__name__, str(e)[:200], ' '.join(x.strip() for x in tb[-5:-1])[:400])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def main():
    a = argparse.ArgumentParser()
    a.add_argument('pid'); a.add_argument('--seconds', type=float, default=20); a.add_argument('--seed', type=int, default=1)
    a.add_argument('--out'); a.add_argument('--cpu', type=float, default=45); a.add_argument('--replay')
    o = a.parse_args()
    M = importlib.import_module(WHERE[o.pid])
    gen, check = M.PROPS[o.pid]
    if o.replay:
        case = json.load(open(o.replay))['case']
        m = one(check, case, o.cpu)
        print('VIOLATED: ' + m if m else 'holds')
        sys.exit(1 if m else 0)
    r = random.Random(o.seed)
    res = dict(evaluations=0, distinct=0, samples=[], failure=None, seed=o.seed, optimized=not __debug__)
    seen, t0, end = set(), time.time(), time.time() + o.seconds
    bound = {}
    while time.time() < end:
        case = gen(r)
        js = json.dumps(case)
        with open(o.out + '.cur', 'w') as f: f.write(js)
        seen.add(hash(js)); res['evaluations'] += 1
        if len(res['samples']) < 2: res['samples'].append(js[:600])
        m = one(check, case, o.cpu)
        if m:
            if res['failure'] is None: end = min(end, time.time() + 4)
            if res['failure'] is None or len(js) < res['failure']['size']:
                res['failure'] = dict(size=len(js), case=case, message=m)
            if 'CPU time' in m: break
    res['distinct'] = len(seen); res['wall'] = time.time() - t0
    with open(o.out + '.tmp', 'w') as f: json.dump(res, f)
    os.replace(o.out + '.tmp', o.out)


if __name__ == '__main__': main()
