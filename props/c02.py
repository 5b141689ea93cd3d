"""C02: measurements equal dense expectation values and leave the state alone."""
from spec import Facet, need, Skip
import gen

RULE = 'Non-trivial: the state is entangled across some bond and the measured operators are not all multiples of the identity.'
ASSUMPTIONS = ['operators are indexed [ket, bra] (the convention all routines of the package share)',
               'states are canonical up to the position of the centre, as every public constructor delivers them']


def load():
    global q, np, L
    import numpy as np
    import qlib as q
    L = q.lib()


OPK = ['gen', 'herm', 'diag', 'nilp', 'unitary']


def s_op(st):
    return st.tuples(st.sampled_from(OPK), st.booleans().map(int), gen.seeds(st)).map(list)


def mkop(o, d, salt=0):
    k, c, s = o
    return q.rand_op(q.rng('op', s, salt), d, c, k)


def nontriv(m):
    return max(q.bonds(m)) > 1


def check_same(m, x0, p0, what, same_pos=True):
    q.need_close(q.vec(m), x0, 'state after ' + what)
    if same_pos:
        need(m.pos == p0, '{} moved the centre from bond {} to {}', what, p0, m.pos)


def val(got, want, scale, what):
    need(np.ndim(got) == 0, '{}: not a scalar', what)
    need(abs(got - want) <= 1e-9 * scale, '{}: {} instead of {}', what, got, want)


# ---------------------------------------------------------------- single local operators
def s_local(st):
    return st.tuples(gen.state(st), st.integers(0, 12), s_op(st)).map(list)


def r_local(case):
    sc, site, o = case
    m = q.mk(sc)
    d = sc['d']
    site %= len(d)
    op = mkop(o, d[site])
    x0, p0 = q.vec(m), m.pos
    op0 = op.copy()
    v = m.measureLocal(op, site)
    sc_ = np.linalg.norm(x0) ** 2 * max(np.linalg.norm(op), 1e-3)
    val(v, q.expect(x0, [(site, op)]), sc_, 'measureLocal')
    check_same(m, x0, p0, 'measureLocal')
    need(np.array_equal(op, op0), 'measureLocal changed the operator')
    v2 = m.measure([op], [site])
    val(v2, q.expect(x0, [(site, op)]), sc_, 'measure with one operator')
    check_same(m, x0, p0, 'measure', False)
    v3 = m.measure(op, site)
    val(v3, q.expect(x0, [(site, op)]), sc_, 'measure with a single operator and site')
    return nontriv(m), '%s|%s' % (o[0], sc['k'])


# ---------------------------------------------------------------- lists of local operators
def s_list(st):
    return st.tuples(gen.state(st), s_op(st)).map(list)


def r_list(case):
    sc, o = case
    m = q.mk(sc)
    d = sc['d']
    n = len(d)
    ops = [mkop(o, d[i], i) for i in range(n)]
    x0, p0 = q.vec(m), m.pos
    nn = np.linalg.norm(x0) ** 2
    want = np.array([q.expect(x0, [(i, ops[i])]) for i in range(n)])
    sc_ = nn * max(np.linalg.norm(a) for a in ops) + 1e-30
    got = m.measureList(ops)
    need(len(got) == n, 'measureList returned {} values for {} sites', len(got), n)
    for i in range(n):
        val(got[i], want[i], sc_, 'measureList[%d]' % i)
    check_same(m, x0, p0, 'measureList')
    # the kernels on tensor lists, for both orthogonality states
    b = np.ones((1, 1, 1))
    m.position(0)
    tl = m.tolist()
    k = L.mf.measureLocal(tl, ops, lb=b, rb=b, ortho='right')
    for i in range(n):
        val(k[i] * nn, want[i], sc_, "mpsfunctions.measureLocal(list, 'right')[%d]" % i)
    m.position(n)
    tl = m.tolist()
    k = L.mf.measureLocal(tl, ops, lb=b, rb=b, ortho='left')
    for i in range(n):
        val(k[i] * nn, want[i], sc_, "mpsfunctions.measureLocal(list, 'left')[%d]" % i)
    k = L.mf.measureLocal(m, ops, lb=b, rb=b, ortho='left')
    for i in range(n):
        val(k[i] * nn, want[i], sc_, "mpsfunctions.measureLocal(MPS, 'left')[%d]" % i)
    i = o[2] % n
    tl[i % n] = tl[i % n] * 1.7                      # mpsfunctions.measure normalises whatever the gauge
    g = L.mf.measure(ops[i][None, None], b, b, tl, i)
    val(g * nn, want[i], sc_, 'mpsfunctions.measure')
    check_same(m, x0, n, 'list measurements')
    return nontriv(m), o[0]


# ---------------------------------------------------------------- correlators
def s_corr(st):
    @st.composite
    def f(draw):
        sc = draw(gen.state(st, nmax=6))
        n = len(sc['d'])
        sites = sorted(draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=5)))
        return [sc, sites, [draw(s_op(st)) for _ in sites], draw(st.sampled_from(['none', 'diag', 'inv'])), draw(gen.seeds(st))]
    return f()


def involution(r, d, kind, c):
    p = np.diag(np.where(r.rand(d) < 0.5, 1.0, -1.0))
    if kind == 'inv':
        u, _ = np.linalg.qr(q.gauss(r, (d, d), c))
        p = u.dot(p).dot(u.conj().T)
    return p


def r_corr(case):
    sc, sites, os_, pk, s = case
    m = q.mk(sc)
    d = sc['d']
    n = len(d)
    ops = [mkop(o, d[i], k) for k, (o, i) in enumerate(zip(os_, sites))]
    r = q.rng('P', s)
    P = None if pk == 'none' else [involution(r, d[i], pk, sc['c']) for i in range(n)]
    x0 = q.vec(m)
    sites0 = list(sites)
    ops0 = [a.copy() for a in ops]
    v = m.measure(list(ops), list(sites), P)
    # each operator op_k carries the string P on all sites left of it; products in the order of the list
    per_site = []
    scale = np.linalg.norm(x0) ** 2
    for i in range(n):
        mat = np.eye(d[i])
        for k, site in enumerate(sites):
            if site == i:
                mat = mat.dot(ops[k])
            elif site > i and P is not None:
                mat = mat.dot(P[i])
        per_site.append((i, mat))
    for a in ops:
        scale *= max(np.linalg.norm(a), 1e-3)
    want = q.expect(x0, per_site)
    val(v, want, scale, 'measure at sites %s (string %s)' % (sites, pk))
    check_same(m, x0, None, 'measure', False)
    need(all(np.array_equal(a, b) for a, b in zip(ops, ops0)), 'measure changed the operators')
    rep = len(set(sites)) < len(sites)
    return nontriv(m) and len(sites) > 1, '%s|%d ops%s' % (pk, len(sites), '|repeated site' if rep else '')


# ---------------------------------------------------------------- matrix elements between two states
def s_mel(st):
    @st.composite
    def f(draw):
        a = draw(gen.state(st))
        b = draw(gen.state(st, d=a['d']))
        return [a, b, draw(s_op(st))]
    return f()


def r_mel(case):
    a, b, o = case
    d = a['d']
    n = len(d)
    m1, m2 = q.mk(a, 1), q.mk(b, 2)
    ops = [mkop(o, d[i], i) for i in range(n)]
    x1, x2 = q.vec(m1), q.vec(m2)
    p1, p2 = m1.pos, m2.pos
    want = np.array([np.sum(q.apply1(x1, ops[i], i) * x2.conj()) for i in range(n)])
    sc_ = np.linalg.norm(x1) * np.linalg.norm(x2) * max(max(np.linalg.norm(t) for t in ops), 1e-3)
    got = m1.measureMatrixElementList(m2, ops)
    need(got is not None and len(got) == n, 'measureMatrixElementList returned {}', got)
    for i in range(n):
        val(got[i], want[i], sc_, 'measureMatrixElementList[%d]' % i)
    check_same(m1, x1, p1, 'measureMatrixElementList')
    check_same(m2, x2, p2, 'measureMatrixElementList (second state)')
    bb = np.ones((1, 1, 1))
    k = L.mf.matrixElementLocal(m1.tolist(), m2.tolist(), ops, bb, bb)
    for i in range(n):
        val(k[i] * m1._Z * np.conj(m2._Z), want[i], sc_, 'matrixElementLocal[%d]' % i)
    return nontriv(m1) and nontriv(m2), o[0]


FACETS = [
    Facet('local', s_local, r_local, 1500, rule='a bond dimension above 1'),
    Facet('list', s_list, r_list, 1000, rule='a bond dimension above 1'),
    Facet('corr', s_corr, r_corr, 2500, rule='a bond dimension above 1 and at least two operators'),
    Facet('mel', s_mel, r_mel, 1000, rule='both states have a bond dimension above 1'),
]
