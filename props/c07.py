"""C07: gates and MPOs act as the dense operators."""
from spec import Facet, need, Skip
import gen

RULE = 'Non-trivial: an entangling two-site gate or an MPO with bond dimension above 1 was applied to a state.'
ASSUMPTIONS = ['gates are indexed [in, out] and [in1, in2, out1, out2], MPO tensors [left, right, in, out]',
               'a two-site gate keeps the norm factor of the state; the result is normalised to the norm before the gate']


def load():
    global q, np, L
    import numpy as np
    import qlib as q
    L = q.lib()


G2 = ['gen', 'unitary', 'unitary', 'nearid', 'swap', 'prod', 'herm', 'lowrank', 'diag']


def s_circ(st):
    @st.composite
    def f(draw):
        sc = draw(gen.state(st, Dmax=5, cap=700, nmax=6))
        one = st.tuples(st.just('g1'), st.integers(0, 9), st.sampled_from(['gen', 'herm', 'unitary', 'diag']), st.booleans().map(int), gen.seeds(st),
                        st.booleans().map(int))
        two = st.tuples(st.just('g2'), st.integers(0, 9), st.sampled_from(G2), st.booleans().map(int), gen.seeds(st),
                        st.tuples(st.one_of(st.none(), st.integers(1, 4), st.integers(1, 30)), st.sampled_from([None, None, 1e-16, 1e-6, 0.01, 0.1, 0.3])).map(list))
        pos = st.tuples(st.just('pos'), st.integers(0, 9))
        return [sc, [list(x) for x in draw(st.lists(st.one_of(one, two, two, two, pos), min_size=1, max_size=7))]]
    return f()


def gate2(r, d1, d2, kind, c):
    D = d1 * d2
    if kind == 'nearid':
        h = q.gauss(r, (D, D), c)
        import scipy.linalg as sl
        g = sl.expm(0.1 * h)
    elif kind == 'swap' and d1 == d2:
        g = np.einsum('ad,bc->abcd', np.eye(d1), np.eye(d1)).reshape(D, D)
    elif kind == 'prod':
        g = np.kron(q.gauss(r, (d1, d1), c), q.gauss(r, (d2, d2), c))
    elif kind == 'lowrank':
        g = q.gauss(r, (D, 1), c).dot(q.gauss(r, (1, D), c))
    elif kind in ('unitary', 'herm', 'diag'):
        g = q.rand_op(r, D, c, kind)
    else:
        g = q.gauss(r, (D, D), c)
    return g.reshape(d1, d2, d1, d2)


def r_circ(case):
    sc, prog = case
    m = q.mk(sc)
    d = sc['d']
    n = len(d)
    x = q.vec(m)
    nt = False
    tags = set()
    for k, ins in enumerate(prog):
        if ins[0] == 'pos':
            m.position(ins[1] % (n + 1))
            what = 'position'
        elif ins[0] == 'g1':
            _, site, kind, c, s, keep = ins
            site %= n
            g = q.rand_op(q.rng('g1', s), d[site], c, kind)
            y = q.apply1(x, g, site)
            if np.linalg.norm(y) < 1e-6 * np.linalg.norm(x):
                continue
            g0 = g.copy()
            what = 'applyOneSiteGate(site=%d, preserve_position=%s) [step %d]' % (site, bool(keep), k)
            m.applyOneSiteGate(g, site, preserve_position=bool(keep))
            need(np.array_equal(g, g0), 'applyOneSiteGate changed the gate')
            x = y
            if keep:
                need(m.pos == site + 1, 'centre at {} after {}', m.pos, what)
            else:
                q.need_close(q.vec(m), x, what)
                m.position(0)
                m.position(n)
            tags.add('keep' if keep else 'nokeep')
        else:
            _, site, kind, c, s, (Dmax, thr) = ins
            site %= n - 1
            g = gate2(q.rng('g2', s), d[site], d[site + 1], kind, c)
            y = q.apply2(x, g, site)
            nx, ny = np.linalg.norm(x), np.linalg.norm(y)
            if ny < 1e-6 * nx:
                continue
            S = np.linalg.svd(y.reshape(int(np.prod(d[:site + 1])), -1), compute_uv=False) / nx
            t = 1e-16 if thr is None else thr
            if np.sum(S > t) == 0 or np.any(np.abs(S - t) < 1e-6 * t + 1e-17 * 0):
                continue
            g0 = g.copy()
            kw = {}
            if Dmax is not None:
                kw['Dmax'] = Dmax
            if thr is not None:
                kw['thresh'] = thr
            what = 'applyTwoSiteGate(site=%d, %s, %s) [step %d]' % (site, kind, kw, k)
            tw, Dn = m.applyTwoSiteGate(g, site, **kw)
            need(np.array_equal(g, g0), 'applyTwoSiteGate changed the gate')
            need(m.pos == site + 1, 'centre at {} after {}', m.pos, what)
            if Dmax is not None:
                need(Dn <= Dmax, '{}: bond dimension {}', what, Dn)
            exp_k = int(np.sum(S > t))
            if t > 1e-12:
                need(Dn == min(exp_k, len(S) if Dmax is None else Dmax), '{}: kept {} of Schmidt values {}', what, Dn, S)
            else:
                need(Dn >= min(np.sum(S > 1e-12), 10**9 if Dmax is None else Dmax), '{}: kept {} of Schmidt values {}', what, Dn, S)
            need(m._tensors[site].shape[1] == Dn == m._tensors[site + 1].shape[0], '{}: reported dimension {} but bond is {}', what, Dn, m._tensors[site].shape)
            wt = np.sum(S[Dn:] ** 2)
            need(abs(tw - wt) <= 1e-9 * np.sum(S ** 2), '{}: truncated weight {} instead of {}', what, tw, wt)
            sv = np.diag(m._mat)
            need(np.linalg.norm(m._mat - np.diag(sv)) < 1e-12 and np.linalg.norm(sv - S[:Dn] / np.linalg.norm(S[:Dn])) < 1e-8 if Dn <= len(S) else True,
                 '{}: bond matrix does not hold the Schmidt values', what)
            if Dn < len(S) and S[Dn - 1] - S[Dn] < 1e-5 * S[0] and wt > 1e-20:
                x = q.vec(m)       # degenerate cut: any choice is a best approximation; continue from what was chosen
                F = abs(np.sum(x.conj() * y)) / (np.linalg.norm(x) * ny)
                need(abs(F ** 2 - (1 - wt / np.sum(S ** 2))) < 1e-8, '{}: not a best approximation', what)
            else:
                A = y.reshape(int(np.prod(d[:site + 1])), -1)
                u, sv, v = np.linalg.svd(A, full_matrices=False)
                y2 = ((u[:, :Dn] * sv[:Dn]).dot(v[:Dn])).reshape(y.shape)
                x = y2 * (nx / np.linalg.norm(y2))
            nt = nt or kind not in ('prod', 'diag')
            tags.add('truncated' if wt > 1e-10 else 'exact')
        q.check_shapes(m, d, what)
        q.need_close(q.vec(m), x, 'state after ' + what, tol=1e-7 if 'truncated' in tags else 1e-9)
        q.check_canonical(m, what)
        if np.linalg.norm(np.imag(x)) > 1e-6 * np.linalg.norm(x):
            need(np.issubdtype(m.dtype, np.complexfloating), 'dtype {} of a complex state after {}', m.dtype, what)
    return nt, '|'.join(sorted(tags))


# ---------------------------------------------------------------- two-site gate: unitary gates invert each other, commute when disjoint
def s_rel(st):
    return st.tuples(gen.state(st, Dmax=4, nmin=4, nmax=10, cap=10**5, dmin=2, dmax=3, z=False, kinds=['rand', 'ghz', 'prod']), st.integers(0, 99), st.integers(0, 99),
                     st.booleans().map(int), gen.seeds(st)).map(list)


def r_rel(case):
    sc, i, j, c, s = case
    m = q.mk_long(sc)
    n = len(sc['d'])
    d = sc['d']
    i %= n - 1
    j %= n - 1
    g = gate2(q.rng('a', s), d[i], d[i + 1], 'unitary', c)
    h = gate2(q.rng('b', s), d[j], d[j + 1], 'unitary', c)
    D = d[i] * d[i + 1]
    gi = np.linalg.inv(g.reshape(D, D)).reshape(g.shape)
    a = m.copy()
    a.applyTwoSiteGate(g, i)
    a.applyTwoSiteGate(h, j)
    b = m.copy()
    b.applyTwoSiteGate(h, j)
    b.applyTwoSiteGate(g, i)
    ov = a.dot(b)
    if abs(i - j) > 1:
        need(abs(ov - a.dot(a)) < 1e-8, 'disjoint gates do not commute: overlap {}', ov)
    need(abs(a.dot(a) - 1) < 1e-8, 'unitary gates changed the norm to {}', a.dot(a))
    e = m.copy()
    e.applyTwoSiteGate(g, i)
    e.position(0)
    e.applyTwoSiteGate(gi, i)
    need(abs(e.dot(m) - 1) < 1e-8, 'gate and inverse gate give overlap {}', e.dot(m))
    need(abs(m.dot(m) - 1) < 1e-8, 'the original changed')
    return abs(i - j) != 0, 'disjoint' if abs(i - j) > 1 else 'overlapping'


# ---------------------------------------------------------------- matrix product operators
def s_mpo(st):
    @st.composite
    def f(draw):
        sc = draw(gen.state(st, Dmax=4, cap=200, nmax=5))
        n = len(sc['d'])
        M = [draw(st.integers(1, 4)) for _ in range(n - 1)]
        dout = draw(st.sampled_from(['same', 'same', 'other']))
        return [sc, M, draw(st.booleans()).__int__(), gen_s(draw, st), dout, draw(st.sampled_from(['list', 'MPO']))]
    return f()


def gen_s(draw, st):
    return draw(gen.seeds(st))


def r_mpo(case):
    sc, M, c, s, dout, typ = case
    m = q.mk(sc)
    d = sc['d']
    n = len(d)
    r = q.rng('mpo', s)
    b = [1] + M + [1]
    do = list(d) if dout == 'same' else [1 + (a + int(r.randint(0, 2))) % 4 for a in d]
    W = [q.gauss(r, (b[i], b[i + 1], d[i], do[i]), c) for i in range(n)]
    x = q.vec(m)
    op = q.mpo_dense(W)
    y = x.reshape(-1).dot(op).reshape(do)
    if np.linalg.norm(y) < 1e-6 * np.linalg.norm(x) * np.linalg.norm(op):
        raise Skip('zero result')
    W0 = [w.copy() for w in W]
    tl = m.tolist()
    keep = [t.copy() for t in tl]
    out = L.mf.applyMPO(tl, W, inplace=False)
    q.need_close(q.vec_list(out) * m._Z, y, 'mpsfunctions.applyMPO')
    need(all(np.array_equal(a, b_) for a, b_ in zip(tl, keep)), 'applyMPO(inplace=False) changed its argument')
    out2 = L.mf.applyMPO(tl, W, inplace=True)
    need(out2 is tl, 'applyMPO(inplace=True) returned another list')
    q.need_close(q.vec_list(tl) * m._Z, y, 'mpsfunctions.applyMPO(inplace=True)')
    q.need_close(q.vec(m), x, 'state after working on its tensor list')
    if typ == 'MPO' and dout == 'same':
        import lib.mpslib.Hamiltonians as H
        arg = H.MPO.fromlist(W)
    else:
        arg = W
    m.applyMPO(arg)
    q.check_shapes(m, do, 'applyMPO')
    q.need_close(q.vec(m), y, 'MPS.applyMPO')
    need(all(np.array_equal(a, b_) for a, b_ in zip(W, W0)), 'applyMPO changed the operator')
    m.position(0)
    m.position(n)
    q.need_close(q.vec(m), y, 'state after applyMPO and a sweep')
    q.check_canonical(m, 'after applyMPO and a sweep')
    return max(M) > 1, typ + '|' + dout


FACETS = [
    Facet('circuit', s_circ, r_circ, 2500, rule='a two-site gate that is not a product or diagonal was applied'),
    Facet('relations', s_rel, r_rel, 500, rule='the two gates act on different bonds'),
    Facet('mpo', s_mpo, r_mpo, 1200, rule='an operator bond dimension above 1'),
]
