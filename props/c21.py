"""C21: bit operations and small utilities."""
from spec import Facet, Violation, Skip, need
import gen

RULE = 'see the facets'
ASSUMPTIONS = ['bit patterns are np.uint64 as documented, positions 0..63',
               'the unused functions SFwick/SBwick, matchState and findPhase* have no documented meaning and are not covered']


def load():
    global np, bb, ut, q, itertools, math
    import numpy as np, qlib as q, itertools, math
    import lib.utils.binaryoperations as bb
    import lib.utils.utilities as ut


def bits_strategy(st):
    w = st.one_of(st.integers(0, 2**64 - 1), st.integers(0, 255), st.integers(0, 63).map(lambda k: 1 << k),
                  st.sampled_from([0, 2**64 - 1, 2**63, 2**63 - 1, 2**53, 2**53 + 1, 2**32 - 1]))
    return st.fixed_dictionaries({'b': w.map(str), 'p': st.integers(0, 63), 'q': st.integers(0, 63)})


def run_bits(case):
    b, p, p2 = int(case['b']), case['p'], case['q']
    B = np.uint64(b)
    get, fl, se, un = bb.getBit(B, p), bb.flipBit(B, p), bb.setBit(B, p), bb.unsetBit(B, p)
    need(get == (b >> p) & 1, 'getBit({},{}) = {}', b, p, get)
    need(int(fl) == b ^ (1 << p), 'flipBit({},{}) = {}', b, p, fl)
    need(int(se) == b | (1 << p), 'setBit({},{}) = {}', b, p, se)
    need(int(un) == b & ~(1 << p), 'unsetBit({},{}) = {}', b, p, un)
    for x in (fl, se, un):
        need(isinstance(x, np.uint64), 'result is {} instead of uint64', type(x))
    need(int(B) == b, 'argument changed')
    need(int(bb.flipBit(bb.flipBit(B, p), p)) == b, 'flipping twice changes the word')
    need(int(bb.flipBit(bb.flipBit(B, p), p2)) == int(bb.flipBit(bb.flipBit(B, p2), p)), 'flips do not commute')
    for k in range(64):
        if k != p:
            need(bb.getBit(fl, k) == (b >> k) & 1, 'flipBit at {} changed bit {}', p, k)
    # positions may be numpy integers too
    need(int(bb.setBit(B, np.int64(p))) == b | (1 << p), 'setBit with a numpy position')
    return b > 1 and p > 0


def basis_strategy(st):
    @st.composite
    def f(draw):
        N = draw(st.integers(0, 64))
        if N <= 12:
            k = draw(st.integers(0, N + 1))
        else:
            k = draw(st.sampled_from([0, 1, 2] + ([N, N - 1, N - 2] if N <= 20 else [])))
        return {'N': N, 'k': k}
    return f()


def run_basis(case):
    N, k = case['N'], case['k']
    res = bb.binarybasis(N, k)
    ref = sorted(sum(1 << i for i in c) for c in itertools.combinations(range(N), k))
    need(all(isinstance(x, np.uint64) for x in res), 'basis states are not uint64')
    got = [int(x) for x in res]
    need(sorted(got) == ref, 'basis of {} sites with {} particles has {} distinct states instead of {}; first difference {}', N, k, len(set(got)), len(ref),
         sorted(set(got) ^ set(ref))[:3])
    need(got == ref, 'basis of {} sites with {} particles is not ordered', N, k)
    return N >= 3 and 0 < k < N


def dx_strategy(st):
    inc = st.floats(1e-3, 3, allow_nan=False)
    return st.fixed_dictionaries({'x0': st.floats(-5, 5, allow_nan=False), 'inc': st.lists(inc, min_size=2, max_size=9),
                                  'e0': st.sampled_from([0.0, 0.1, 1.0]), 'e1': st.sampled_from([0.0, 0.2, 2.0])})


def run_dx(case):
    x = case['x0'] + case['e0'] + np.concatenate([[0.0], np.cumsum(case['inc'])])
    x0, xN = case['x0'], x[-1] + case['e1']
    if not (x[0] >= x0 and x[-1] <= xN):
        raise Skip('rounding')
    keep = x.copy()
    # each grid point owns the interval between the midpoints to its neighbours; the first starts at x0, the last ends at xN
    edges = np.concatenate([[x0], (x[1:] + x[:-1]) / 2, [xN]])
    ref = np.diff(edges)
    dx = ut.computedx(x0, x, xN)
    need(np.allclose(dx, ref, rtol=1e-10, atol=1e-12), 'computedx: {} instead of {}', dx, ref)
    need(np.array_equal(x, keep), 'computedx changed its grid')
    return len(x) >= 4


def bis_strategy(st):
    @st.composite
    def f(draw):
        return {'kind': draw(st.sampled_from(['cubic', 'lin', 'tanh', 'step', 'atan', 'exact'])), 'r': draw(st.floats(-4, 4, allow_nan=False)),
                'a': draw(st.floats(0.01, 10)), 'b': draw(st.floats(0.01, 10)), 'sgn': draw(st.sampled_from([1, -1])),
                'tol': draw(st.sampled_from([1e-10, 1e-6, 1e-3]))}
    return f()


def run_root(case):
    r, s = case['r'], case['sgn']
    k = case['kind']
    fun = {'cubic': lambda x: s * ((x - r)**3 + 0.3 * (x - r)), 'lin': lambda x: s * 2.0 * (x - r), 'tanh': lambda x: s * math.tanh(x - r),
           'step': lambda x: s * (1.0 if x > r else -1.0), 'atan': lambda x: s * (math.atan(3 * (x - r)) + 0.1 * (x - r)),
           'exact': lambda x: s * (x - r) * (2 + math.sin(x))}[k]
    a, b = r - case['a'], r + case['b']
    if k == 'exact':
        b = r                                     # root at the boundary
        fa = fun(b)
        x = _root()(fun, a, b, tol=case['tol'])
        need(abs(x - r) <= case['tol'] * 1.01 + 1e-14 * abs(r), 'root at the boundary: {} instead of {}', x, r)
        return True, k
    x = _root()(fun, a, b, tol=case['tol'])
    need(x is not None and a <= x <= b, 'bisection left its interval: {}', x)
    need(abs(x - r) <= case['tol'] * 1.01 + 1e-14 * abs(r), 'root {} instead of {} with tolerance {}', x, r, case['tol'])
    # bracketing of the root
    c = r + case['a'] + 0.05
    aa, bb_, ok = ut.placeBraket(fun, c, c + 0.5, 0.3, 50.0)
    need(ok and aa <= r <= bb_, 'placeBraket returned {} without the root {}', (aa, bb_, ok), r)
    _, _, ok = ut.placeBraket(lambda x: 1.0 + x * x, -1.0, 1.0, 0.5, 3.0)
    need(ok is False, 'placeBraket found a sign change of a positive function')
    return True, k


def _root():
    f = ut.bisection
    return f


def grid_strategy(st):
    return st.fixed_dictionaries({'inc': st.lists(st.floats(1e-3, 2), min_size=1, max_size=24), 'x0': st.floats(-3, 3, allow_nan=False),
                                  'u': st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0])), 'node': st.one_of(st.none(), st.integers(0, 30))})


def run_grid(case):
    g = case['x0'] + np.concatenate([[0.0], np.cumsum(case['inc'])])
    if np.any(np.diff(g) <= 0):
        raise Skip('grid not increasing')
    x = g[0] + case['u'] * (g[-1] - g[0]) if case['node'] is None else g[case['node'] % len(g)]
    x = min(max(x, g[0]), g[-1])
    l, r = ut.bisectionGrid(g, x)
    need(r == l + 1 and g[l] <= x <= g[r], 'grid points {} and {} do not enclose {} (grid of {})', l, r, x, len(g))
    return len(g) >= 4


def fun_strategy(st):
    return st.fixed_dictionaries({'s': gen.seeds(st), 'per': st.sampled_from([1.0, 0.5, 2.0, 3.7]), 'c': st.booleans(), 'const': st.booleans(),
                                  'which': st.sampled_from(['funK', 'funR']), 'n': st.integers(1, 20)})


def run_fun(case):
    import random
    f = getattr(ut, case['which'])
    r = q.rng('x', case['s'])
    x = r.uniform(-1, 2, size=case['n'])
    out = []
    for shift in (0.0, case['per'], -3 * case['per']):
        np.random.seed(case['s'] % 1000)
        random.seed(case['s'] % 1000)
        out.append(f(x + shift, case['per'], dtype=complex if case['c'] else float, const=case['const']))
    need(out[0].shape == x.shape and np.iscomplexobj(out[0]) == case['c'], '{}: shape {} dtype {}', case['which'], out[0].shape, out[0].dtype)
    need(np.allclose(out[0], out[1], atol=1e-10) and np.allclose(out[0], out[2], atol=1e-10), '{} is not periodic', case['which'])
    if case['const']:
        need(np.ptp(np.abs(out[0] - out[0][0])) == 0, '{}(const) is not constant', case['which'])
    return not case['const'] and case['n'] > 2


def mat_strategy(st):
    return st.fixed_dictionaries({'n': st.integers(1, 6), 's': gen.seeds(st), 'c': st.booleans(), 'k': st.sampled_from(['diag', 'phase', 'near', 'far', 'nonunit']),
                                  'w': st.sampled_from([3, 5, 7]), 'po': st.integers(0, 2), 'm': st.integers(8, 20)})


def run_mat(case):
    n = case['n']
    r = q.rng('m', case['s'])
    dg = np.exp(1j * r.uniform(0, 6.28, n)) if case['c'] else r.choice([-1.0, 1.0], n)
    off = r.randn(n, n) * (1 - np.eye(n))
    A = np.diag(dg)
    k = case['k']
    if k == 'diag':
        A = np.diag(r.randn(n) + 2.5)
    elif k == 'near':
        A = A + 1e-12 * off
    elif k == 'far':
        A = A + 1e-3 * off
    elif k == 'nonunit':
        A = A * 1.01
    offn = np.linalg.norm(A - np.diag(np.diag(A)))
    res, dev = ut.isDiag(A)
    need(abs(dev - offn) < 1e-12, 'isDiag: deviation {} instead of {}', dev, offn)
    need(res == (offn < 1e-8), 'isDiag({}) = {}', k, res)
    un = np.linalg.norm(np.abs(A) - np.eye(n))
    res, dev = ut.isDiagUnitary(A)
    need(abs(dev - un) < 1e-12 and res == (un < 1e-8), 'isDiagUnitary({}) = {}, {}', k, res, dev)
    # smoothing keeps polynomials up to its order
    m = case['m']
    x = np.linspace(-1, 1, m)
    po = min(case['po'], case['w'] - 1)
    ar = np.zeros((2, 2, m), dtype=complex if case['c'] else float)
    co = r.randn(2, 2, po + 1) + (1j * r.randn(2, 2, po + 1) if case['c'] else 0)
    for p in range(po + 1):
        ar += co[:, :, p:p + 1] * x[None, None, :]**p
    keep = ar.copy()
    sm = ut.smoothArray(ar, case['w'], po)
    need(sm.dtype == ar.dtype and np.allclose(sm, keep, atol=1e-9), 'smoothArray changes a polynomial of order {}', po)
    need(np.array_equal(ar, keep), 'smoothArray changed its argument')
    U = [q.gauss(r, (3,), True) for _ in range(4)]
    phi = r.uniform(-3, 3)
    f3 = np.linalg.norm(U[0] - np.exp(1j * phi) * U[1])**2 + np.linalg.norm(U[2] - np.exp(-1j * phi) * U[3])**2
    need(abs(ut.fun3(U[0], U[1], U[2], U[3], phi) - f3) < 1e-10, 'fun3 is not the squared distance')
    need(abs(ut.fun2(U[0][0], U[1][0], U[2][0], U[3][0], phi) - abs(U[0][0] - np.exp(1j * phi) * U[1][0])**2 - abs(U[2][0] - np.exp(-1j * phi) * U[3][0])**2) < 1e-10, 'fun2')
    return n >= 2, k


FACETS = [
    Facet('bits', bits_strategy, run_bits, 3000, rule='more than one bit pattern below and above the position'),
    Facet('basis', basis_strategy, run_basis, 300, thorough=1500, rule='a sector with 0<Nup<N'),
    Facet('computedx', dx_strategy, run_dx, 800, rule='at least four grid points'),
    Facet('root', bis_strategy, run_root, 800, rule='always'),
    Facet('grid', grid_strategy, run_grid, 1500, rule='at least four grid points'),
    Facet('periodic', fun_strategy, run_fun, 600, rule='not the constant function, more than two points'),
    Facet('matrices', mat_strategy, run_mat, 800, rule='at least 2x2'),
]
