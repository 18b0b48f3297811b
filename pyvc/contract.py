"""Base class of the sidecar contracts in /verif/contracts."""
import copy, os, pickle, time, zlib
import z3
from .values import *
from . import engine as E


class Contract:
    target = None           # 'module:function'
    frame = True            # C19: arguments are left as they were
    mutates = ()            # arguments it is meant to change
    frame_cases = 2         # quick tier of C19
    props = ()              # property ids its postconditions are tagged with
    also = {}               # property -> further property tags checked with it (callee contracts)
    summaries = {}          # qualified name -> summary (callee contracts used at call sites)
    externals = {}          # library function -> assumed contract (listed in the evidence)
    last_write = True       # relate values after a loop to the iteration that wrote them last (costs paths)
    touch_depth = 99        # instances of universal facts are generated this deep
    max_paths = 6000
    unroll = None           # loops over more than this many known elements are cut like any other (default: interp.UNROLL)
    join_breaks = False     # continue after a break from one generic state (needs last_write = False)
    lazy_optionals = False  # loop variables that are None or a number are split only where the code does
    symbolic_sets = False   # set() is filled in loops
    fixed_lists = False     # lists of a known number of objects keep that number in loops
    budget = 240
    timeout = 8000

    def cases(self): return [{}]
    def setup(self, P, case): raise NotImplementedError
    def post(self, P, case, res): raise NotImplementedError
    def clauses(self, env): return ()
    def allow_raise(self, P, case, exc): return False
    def quick(self, case, pid): return True      # is the case part of the quick tier
    def weight(self, case): return 1             # rough relative cost, for scheduling
    def name(self): return type(self).__name__

    def model_info(self, P, c):
        m = P.model_for(tz(c))
        if m is None: return None
        out = {}
        for nm, v in getattr(P, 'inputs', {}).items():
            try: out[nm] = self.ev(P, m, v)
            except Exception as e: out[nm] = 'n/a (%s)' % e
        return out

    def ev(self, P, m, v):
        if isinstance(v, (tuple, list)): return [self.ev(P, m, x) for x in v]
        if isinstance(v, E.HList):
            n = self.ev(P, m, v.seq.length())
            if n > 12: return 'list of length %s' % n
            return [self.ev(P, m, v.seq.at(P, i)) for i in range(n)]
        if isinstance(v, E.HObj): return {k: self.ev(P, m, x) for k, x in v.fields.items()}
        if isinstance(v, Base):
            n = self.ev(P, m, v.length)
            if n > 12: return 'list of length %s' % n
            return [self.ev(P, m, v.raw(z3.IntVal(i))) for i in range(n)]
        if isinstance(v, Mat): return str(m[v.F])[:400]
        if isinstance(v, Vec): return str(m[v.F])[:200]
        if is_z(v):
            x = m.eval(v, model_completion=True)
            f = fold(x)
            return float(f) if not isinstance(f, (int, bool)) and not is_z(f) else (str(f) if is_z(f) else f)
        return v if isinstance(v, (int, str, bool, type(None))) else str(v)


HINTS = {}
HDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'hints')
FIELDS = ('mod', 'heap', 'dropped', 'written', 'patterns', 'sigs', 'skipped')


def hfile(contract): return os.path.join(HDIR, '%s.%s.bin' % (type(contract).__module__.split('.')[-1], contract.name()))


def hints(contract):
    """loop frames and refuted candidate invariants of the last run of tools/mkhints.py.  They only say where the search for
    invariants starts (bigger frames and fewer candidates are always sound); what is kept is proved on every run"""
    f = hfile(contract)
    if f not in HINTS:
        try: HINTS[f] = pickle.loads(zlib.decompress(open(f, 'rb').read()))
        except Exception: HINTS[f] = {}
    return HINTS[f]


def export(p):
    """the loop frames and refuted candidates of a finished proof"""
    return {k: {a: getattr(li, a) for a in FIELDS} for k, li in p.loops.items()}


def run_case(contract, case, only=None, hint=True):
    t0 = time.time()
    h = hints(contract).get(repr(case)) if hint else None
    out = None
    if h:
        try: out = attempt(contract, case, only, h)
        except Exception: out = None
        if out is not None and out['status'] != 'ok' and 'time budget' not in str(out.get('why')): out = None
    if out is None:
        out = attempt(contract, case, only, None)
        out['from_scratch'] = True
    out['wall'] = time.time() - t0
    return out


def attempt(contract, case, only, hint):
    out = {'contract': contract.name(), 'target': contract.target, 'case': str(case)}
    try:
        p = E.Proof(contract, case, only)
        for k, v in (hint or {}).items():
            li = p.loops[k] = E.LoopInfo()
            for a, x in v.items(): setattr(li, a, copy.copy(x))
        p.run(contract.budget)
        out.update(status='ok', obls=p.obls, paths=p.paths, rounds=p.rounds, used=sorted(p.used), summ=sorted(p.summ_used),
                   solver_s=p.solver_s, queries=p.queries, reached=sorted(p.reached),
                   dropped={str(k): sorted(li.dropped) for k, li in p.loops.items()},
                   mods={str(k): sorted(li.mod) for k, li in p.loops.items()})
        if only == 'C19':
            # the frame conditions only: what else fails is reported by the check of its own property
            out['obls'] = p.obls = [o for o in p.obls if o[1] == 'proved' or o[0].startswith('C19:')]
        st = {s for _, s, _ in p.obls}
        if not p.obls and not only: out['status'] = 'vacuous'
        elif 'failed' in st: out['status'] = 'failed'
        elif 'unknown' in st: out['status'] = 'unknown'
        elif 'exit' not in p.reached and only != 'C19' and not getattr(contract, 'may_always_raise', False): out['status'] = 'vacuous'
    except Unsupported as e:
        out.update(status='unsupported', why=str(e), obls=[])
    except E.PyRaise as e:
        out.update(status='unsupported', why='%s %s' % (e.name, e.value), obls=[])
    return out
