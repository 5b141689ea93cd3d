"""C03: overlaps equal dense inner products."""
from spec import Facet, need, Skip
import gen

RULE = 'Non-trivial: both states are entangled.'
ASSUMPTIONS = ['overlap(a,b) is sum_i a_i conj(b_i)']


def load():
    global q, np, L
    import numpy as np
    import qlib as q
    L = q.lib()


def s_pair(st):
    @st.composite
    def f(draw):
        a = draw(gen.state(st, nmax=7))
        b = draw(gen.state(st, d=a['d']))
        return [a, b]
    return f()


def r_pair(case):
    a, b = case
    m1, m2 = q.mk(a, 1), q.mk(b, 2)
    x1, x2 = q.vec(m1), q.vec(m2)
    p1, p2 = m1.pos, m2.pos
    s = np.linalg.norm(x1) * np.linalg.norm(x2)

    def chk(got, want, what, sc=s):
        need(np.ndim(got) == 0 and abs(got - want) <= 1e-9 * sc, '{}: {} instead of {}', what, got, want)
    want = np.sum(x1 * x2.conj())
    o12 = m1.dot(m2)
    chk(o12, want, 'dot')
    need((m1.pos, m2.pos) == (p1, p2), 'dot moved a centre: {} {} -> {} {}', p1, p2, m1.pos, m2.pos)
    q.need_close(q.vec(m1), x1, 'first operand after dot')
    q.need_close(q.vec(m2), x2, 'second operand after dot')
    o21 = m2.dot(m1)
    chk(o21, np.conj(o12), 'conjugate symmetry')
    chk(L.mf.overlap(m1, m2), want, 'overlap')
    n1 = m1.dot(m1)
    chk(n1, np.linalg.norm(x1) ** 2, 'squared norm', np.linalg.norm(x1) ** 2)
    # tensor lists: no norm factors
    chk(L.mf.overlap(m1.tolist(), m2.tolist()) * m1._Z * np.conj(m2._Z), want, 'overlap of tensor lists')
    q.need_close(q.vec(m1), x1, 'first operand at the end')
    q.need_close(q.vec(m2), x2, 'second operand at the end')
    nt = max(q.bonds(m1)) > 1 and max(q.bonds(m2)) > 1
    return nt, 'same centre' if p1 == p2 else 'different centres'


# ---------------------------------------------------------------- linearity / invariance relations between overlaps
def s_meta(st):
    @st.composite
    def f(draw):
        a = draw(gen.state(st, kinds=['rand', 'sparse', 'decay'], nmax=12, cap=10**6, dmax=3, Dmax=10))
        b = draw(gen.state(st, d=a['d'], kinds=['rand', 'ghz'], Dmax=6))
        return [a, b, draw(gen.scalar(st)), draw(gen.scalar(st)), draw(st.lists(st.integers(0, 12), max_size=4))]
    return f()


def r_meta(case):
    """chains too long for a dense vector: sesquilinearity, Cauchy-Schwarz, independence of the centre"""
    a, b, s, t, mv = case
    n = len(a['d'])
    m1, m2 = q.mk_long(a, 1), q.mk_long(b, 2)
    s, t = q.num(s), q.num(t)
    o = m1.dot(m2)
    n1, n2 = m1.dot(m1), m2.dot(m2)
    sc = np.sqrt(abs(n1 * n2)) + 1e-30
    need(abs(np.imag(n1)) <= 1e-9 * abs(n1) and np.real(n1) > 0, 'squared norm is {}', n1)
    need(abs(n1 - abs(m1._Z) ** 2) < 1e-9 * abs(n1), 'squared norm {} of a canonical state with norm factor {}', n1, m1._Z)
    need(abs(o) <= sc * (1 + 1e-9), 'Cauchy-Schwarz violated: |{}| > {}', o, sc)
    e = q.transfer_overlap(m1.tolist(), m2.tolist()) * m1._Z * np.conj(m2._Z)
    need(abs(o - e) <= 1e-9 * sc, 'overlap {} instead of {}', o, e)
    for p in mv:
        m1.position(p % (n + 1))
        m2.position((p * 5 + 1) % (n + 1))
        need(abs(m1.dot(m2) - o) <= 1e-9 * sc, 'overlap changed from {} to {} when the centres moved', o, m1.dot(m2))
    need(abs((m1 * s).dot(m2 * t) - o * s * np.conj(t)) <= 1e-9 * sc * abs(s * t), 'not sesquilinear')
    return max(q.bonds(m1)) > 1 and n > 6, 'n=%d' % n


FACETS = [
    Facet('pair', s_pair, r_pair, 3000, rule='both states have a bond dimension above 1'),
    Facet('meta', s_meta, r_meta, 600, rule='more than six sites and a bond dimension above 1'),
]
