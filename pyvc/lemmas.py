"""The induction lemmas the engine uses without unfolding, each proved by z3: base case and step over an arbitrary length.
F(t+1) = F(t) + e(t) is the only fact about sums; a lemma over [lo, hi) is an induction on hi."""
import z3

I, R = z3.IntSort(), z3.RealSort()


def _valid(hyp, goal):
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(*hyp)
    s.add(z3.Not(goal))
    return s.check() == z3.unsat


def lemmas():
    """(name, [(hypotheses, goal)]): the goals are the base case and the step"""
    lo, n, w, u, a, b = z3.Ints('lo n w u a b')
    for srt in (I, R):
        F, e = z3.Function('F', I, srt), z3.Function('e', I, srt)
        rec = F(n + 1) == F(n) + e(n)
        nm = 'int' if srt is I else 'real'
        # non-negative terms: F is monotone
        yield 'monotone-' + nm, [([], F(lo) <= F(lo)), ([rec, n >= lo, e(n) >= 0, F(lo) <= F(n)], F(lo) <= F(n + 1))]
        # a sum of zeros is zero
        yield 'zeros-' + nm, [([], F(lo) - F(lo) == 0), ([rec, n >= lo, e(n) == 0, F(n) - F(lo) == 0], F(n + 1) - F(lo) == 0)]
        # a sum with no term other than the one at w (all other terms zero) is that term
        one = lambda m: F(m) - F(lo) == z3.If(z3.And(lo <= w, w < m), e(w), 0)
        yield 'single-' + nm, [([], one(lo)), ([rec, n >= lo, z3.Or(n == w, e(n) == 0), one(n)], one(n + 1))]
        # sum over a concatenation of ranges
        yield 'split-' + nm, [([], (F(a) - F(lo)) + (F(b) - F(a)) == F(b) - F(lo))]
    F, e = z3.Function('F', I, I), z3.Function('e', I, I)
    rec = F(n + 1) == F(n) + e(n)
    # all terms 1: the sum is the number of terms
    yield 'all-ones', [([], F(lo) - F(lo) == lo - lo), ([rec, n >= lo, e(n) == 1, F(n) - F(lo) == n - lo], F(n + 1) - F(lo) == n + 1 - lo)]
    # no term exceeds 1: the sum is at most the number of terms, and equal only if every term (the one at w) is 1
    H = lambda m: z3.And(F(m) - F(lo) <= m - lo, z3.Implies(z3.And(F(m) - F(lo) == m - lo, lo <= w, w < m), e(w) == 1))
    yield 'at-most-ones', [([], H(lo)), ([rec, n >= lo, e(n) <= 1, H(n)], H(n + 1))]
    # the length of a route in the matrix with service times: see contracts/servicetime.py (the step is an obligation there)
    # products of consecutive integers: (m-1)*m >= 0 and even, by induction both ways from 0
    P = z3.Function('P', I, I)              # P(m) = m*(m-1)
    k = z3.Int('k')
    yield 'consecutive-nonneg', [([P(0) == 0], P(0) >= 0),
                                 ([P(n + 1) == P(n) + 2 * n, n >= 0, P(n) >= 0], P(n + 1) >= 0),
                                 ([P(n) == P(n - 1) + 2 * (n - 1), n <= 0, P(n) >= 0], P(n - 1) >= 0),
                                 ([], (n + 1) * n == n * (n - 1) + 2 * n)]
    yield 'consecutive-even', [([P(0) == 0], P(0) % 2 == 0), ([P(n + 1) == P(n) + 2 * n, P(n) % 2 == 0], P(n + 1) % 2 == 0),
                               ([P(n) == P(n - 1) + 2 * (n - 1), P(n) % 2 == 0], P(n - 1) % 2 == 0)]


def prove():
    """{name: proved}"""
    return {nm: all(_valid(h, g) for h, g in gs) for nm, gs in lemmas()}


if __name__ == '__main__':
    import sys
    r = prove()
    for k, v in r.items(): print(k, 'proved' if v else 'NOT PROVED')
    sys.exit(0 if all(r.values()) else 1)
