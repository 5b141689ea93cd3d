"""C06: Schmidt values and Gamma/Lambda form."""
from spec import Facet, need, Skip
import gen

RULE = 'Non-trivial: some bond carries more than one Schmidt value above 1e-8.'
ASSUMPTIONS = ['the canonical form without a truncation threshold is specified for states whose bond matrices are invertible (smallest kept Schmidt value above 1e-5); '
               'rank-deficient states are canonised with a threshold']


def load():
    global q, np, L
    import numpy as np
    import qlib as q
    L = q.lib()


def cmp_schmidt(got, want, what, tol=1e-9):
    got = np.asarray(got)
    need(got.ndim == 1 and np.isrealobj(got), '{}: not a real vector', what)
    need(np.all(got >= -1e-15) and np.all(np.diff(got) <= 1e-12), '{}: not positive and descending: {}', what, got)
    k = max(len(got), len(want))
    a, b = np.zeros(k), np.zeros(k)
    a[:len(got)] = got
    b[:len(want)] = want
    need(np.linalg.norm(a - b) < tol, '{}: {} instead of {}', what, got, want)


def s_schmidt(st):
    return st.tuples(gen.state(st, Dmax=9, cap=1500), st.lists(st.integers(0, 12), min_size=1, max_size=4)).map(list)


def r_schmidt(case):
    sc, bonds = case
    m = q.mk(sc)
    n = len(sc['d'])
    x0 = q.vec(m)
    ent = 0
    for b in bonds:
        b %= n + 1
        s = m.getSchmidt(b)
        want = q.schmidt(x0, b) if 0 < b < n else np.ones(1)
        ent += np.sum(want > 1e-8) > 1
        cmp_schmidt(s, want, 'getSchmidt(%d)' % b)
        q.need_close(q.vec(m), x0, 'state after getSchmidt(%d)' % b)
    return ent > 0, sc['k']


def s_canon(st):
    return st.tuples(gen.state(st, kinds=['rand', 'rand', 'ghz', 'low', 'decay', 'sparse'], Dmax=7, cap=1200), st.integers(0, 12),
                     st.sampled_from(['method', 'object', 'list', 'thresh'])).map(list)


def r_canon(case):
    sc, p, how = case
    m = q.mk(sc)
    d = sc['d']
    n = len(d)
    m.position(p % (n + 1))
    x0 = q.vec(m)
    tr = 1e-9
    want = [q.schmidt(x0, b) for b in range(1, n)]
    full = all(len(w) >= D and w[D - 1] > 1e-5 for w, D in zip(want, [min(a) for a in zip(q.bonds(m)[1:-1], [999] * n)]))
    if how == 'thresh':
        if any(np.any((w > 1e-13) & (w < 1e-5)) for w in want):
            raise Skip('Schmidt value near the threshold')
        G, Lam = L.mf.canonizeMPS(m, tr_thresh=tr)
    else:
        if not full:
            raise Skip('bond matrix not invertible')
        if how == 'method':
            m.canonize()
            G, Lam = m._gamma, m._lambda
        elif how == 'object':
            G, Lam = L.mf.canonizeMPS(m)
        else:
            tl = m.tolist()
            keep = [t.copy() for t in tl]
            G, Lam = L.mf.canonizeMPS(tl)
            need(all(np.array_equal(a, b) for a, b in zip(tl, keep)), 'canonizeMPS changed the tensor list')
    q.need_close(q.vec(m), x0, 'state after canonizing')
    need(len(G) == n and len(Lam) == n + 1, 'lengths of Gamma {} and Lambda {}', len(G), len(Lam))
    need(np.allclose(np.abs(Lam[0]), 1) and np.allclose(np.abs(Lam[-1]), 1) and len(Lam[0]) == len(Lam[-1]) == 1, 'boundary Lambdas {} {}', Lam[0], Lam[-1])
    for b in range(1, n):
        cmp_schmidt(Lam[b], want[b - 1], 'Lambda at bond %d' % b, 1e-8)
    chain = []
    for i in range(n):
        need(G[i].shape[2] == d[i], 'Gamma[{}] has shape {}', i, G[i].shape)
        left = np.tensordot(np.diag(Lam[i]), G[i], ([1], [0]))
        right = np.transpose(np.tensordot(G[i], np.diag(Lam[i + 1]), ([1], [0])), (0, 2, 1))
        need(q.is_left(left) < 1e-7, 'Lambda*Gamma at site {} is not left-orthonormal: {:.1e}', i, q.is_left(left))
        need(q.is_right(right) < 1e-7, 'Gamma*Lambda at site {} is not right-orthonormal: {:.1e}', i, q.is_right(right))
        chain.append(right)
    y = q.vec_list(chain)
    F = abs(np.sum(y.conj() * x0)) / (np.linalg.norm(y) * np.linalg.norm(x0))
    need(abs(F - 1) < 1e-8, 'Gamma/Lambda chain has overlap {} with the state', F)
    return any(np.sum(w > 1e-8) > 1 for w in want), how


FACETS = [
    Facet('schmidt', s_schmidt, r_schmidt, 1500, rule='an entangled bond was asked for'),
    Facet('canonical', s_canon, r_canon, 2500, rule='an entangled bond exists'),
]
