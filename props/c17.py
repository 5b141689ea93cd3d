"""C17: transfer-operator solvers satisfy their defining equations."""
from spec import Facet, Skip, need
import gen, inf

RULE = 'Non-trivial: bond dimension at least 2 and, where two layers appear, upper and lower layer differ.'
ASSUMPTIONS = ['states of the energy facets are injective with transfer-matrix gap above 0.1 and fixed points with smallest eigenvalue above 1e-4',
               'infinite boundary environments of an MPS object are requested with regauge=True (without it the routine leaves gauging to the caller)',
               'linear systems are generated with condition number below 1e6',
               'Arnoldi solvers may refuse to converge (ArpackNoConvergence); such cases are skipped']


def load():
    global q, np, L, Hm, mf
    import numpy as np
    import qlib as q
    L = q.lib()
    mf = L.mf
    import lib.mpslib.Hamiltonians as Hm


def arp(f, *a, **k):
    from scipy.sparse.linalg import ArpackError
    try:
        return f(*a, **k)
    except ArpackError as e:
        raise Skip('ArpackError ' + str(e)[:40])


def pair(c, b):
    """two unit cells with the same local dimensions; the second has its own bond dimensions"""
    A = inf.build(c)
    c2 = dict(c)
    c2['D'] = [b['D'][i % len(b['D'])] for i in range(len(c['d']))]
    c2['s'] = b['s']
    c2['k'] = b['k']
    c2['c'] = b['c']
    c2['f'] = 1.0
    return A, inf.build(c2), c2


def dense(A, B, direction, v, ph=1.0):
    E = inf.cell_tm(A, B) * ph
    return v.dot(E) if direction > 0 else E.dot(v)


# ------------------------------------------------------------------------------------------------ products
OPS = ['site', 'mixed', 'cell', 'mixedcell', 'pseudo', 'pseudocell', 'oneminus', 'oneminuscell', 'general']
FORMS = ['arr', 'mps']


def s_prod(st):
    return st.tuples(st.sampled_from(OPS), inf.cell(st, nmax=3), inf.cell(st, nmax=3), st.sampled_from([1, -1]),
                     st.tuples(st.sampled_from(FORMS), st.sampled_from(FORMS)).map(list), st.booleans().map(int), st.sampled_from([0.0, 0.0, 0.4, -0.4, 3.1, -2.0]), gen.seeds(st)).map(list)


def r_prod(case):
    opn, c, b, dr, forms, cv, mom, s = case
    A, B, c2 = pair(c, b)
    r = q.rng('v', s)
    one = opn in ('site', 'mixed', 'pseudo', 'oneminus', 'general')
    if one:
        A, B = A[:1], B[:1]
    Da, Db = (A[0].shape[0], B[0].shape[0]) if dr > 0 else (A[-1].shape[1], B[-1].shape[1])
    Ea, Eb = (A[-1].shape[1], B[-1].shape[1]) if dr > 0 else (A[0].shape[0], B[0].shape[0])

    def form(ts, f):
        if f == 'mps':
            m = L.MPS([t.copy() for t in ts])
            return m
        return ts[0] if one else ts
    two = opn in ('mixed', 'mixedcell', 'oneminus', 'general')
    lo = B if two else A
    v = q.gauss(r, (Da * (Db if two else Da),), cv)
    need_sq = opn in ('pseudo', 'pseudocell', 'oneminus', 'oneminuscell')
    if need_sq and (Da != Ea or (two and Db != Eb)):
        raise Skip('projector needs equal outer bonds')
    x = q.gauss(r, (Da, Db if two else Da), c['c'])         # arbitrary "l"
    y = q.gauss(r, (Da, Db if two else Da), c['c'])         # arbitrary "r"
    keep = v.copy()
    if opn == 'site':
        got = mf.TransferOperator(dr, form(A, forms[0]), v)
        want = dense(A, A, dr, v)
    elif opn == 'mixed':
        got = mf.MixedTransferOperator(dr, form(A, forms[0]), form(B, forms[1]), v)
        want = dense(A, B, dr, v)
    elif opn == 'general':
        got = mf.GeneralizedMatrixVectorProduct(dr, form(B, forms[1]), form(A, forms[0]), v)
        want = dense(A, B, dr, v)
    elif opn == 'cell':
        got = mf.UnitcellTransferOperator(dr, form(A, forms[0]), v)
        want = dense(A, A, dr, v)
    elif opn == 'mixedcell':
        got = mf.MixedUnitcellTransferOperator(dr, form(A, forms[0]), form(B, forms[1]), v)
        want = dense(A, B, dr, v)
    elif opn == 'pseudo':
        got = mf.pseudoTransferOperator(A[0], y, x, dr, v)
        want = dense(A, A, dr, v) - ((v.dot(y.reshape(-1))) * x.reshape(-1) if dr > 0 else (v.dot(x.reshape(-1))) * y.reshape(-1))
    elif opn == 'pseudocell':
        got = mf.pseudoUnitcellTransferOperator(dr, A, [x], [y], v)
        want = dense(A, A, dr, v) - ((v.dot(y.reshape(-1))) * x.reshape(-1) if dr > 0 else (v.dot(x.reshape(-1))) * y.reshape(-1))
    elif opn == 'oneminuscell':
        got = mf.OneMinusPseudoUnitcellTransferOperator(dr, A, [x], [y], v)
        want = v - dense(A, A, dr, v) + ((v.dot(y.reshape(-1))) * x.reshape(-1) if dr > 0 else (v.dot(x.reshape(-1))) * y.reshape(-1))
    else:
        got = mf.OneMinusPseudoTransferOperator(A[0], B[0], y, x, dr, mom, v)
        want = v - dense(A, B, dr, v, np.exp(1j * mom) if mom else 1.0)
        if not mom:
            want = want + ((v.dot(y.reshape(-1))) * x.reshape(-1) if dr > 0 else (v.dot(x.reshape(-1))) * y.reshape(-1))
    need(np.array_equal(keep, v), '{}: the input vector was changed', opn)
    q.need_close(got, want, '{} direction {}'.format(opn, dr), 1e-10)
    return Da > 1, opn


# ------------------------------------------------------------------------------------------------ eigenvectors
def s_eigs(st):
    return st.tuples(st.sampled_from(['TM', 'UC', 'UC', 'MUC', 'MUC']), inf.cell(st, nmax=3, Dmax=6), inf.cell(st, nmax=3, Dmax=6), st.sampled_from([1, -1]),
                     st.integers(1, 6), st.sampled_from(['LM', 'LR']), st.sampled_from(['list', 'mps'])).map(list)


def r_eigs(case):
    kind, c, b, dr, k, which, form = case
    A, B, c2 = pair(c, b)
    if kind == 'TM':
        A = [A[0]] if A[0].shape[0] == A[0].shape[1] else None
        if A is None:
            raise Skip('single tensors need equal bonds')
    if kind == 'MUC' and c['c'] != c2['c']:
        A = [a.astype(complex) for a in A]
        B = [a.astype(complex) for a in B]
    E = inf.cell_tm(A, B if kind == 'MUC' else A)
    w = np.linalg.eigvals(E)
    rho = np.max(np.abs(w))
    second = np.sort(np.abs(w))[::-1][1] if len(w) > 1 else 0.0
    if not rho > 1e-10 * np.linalg.norm(E):
        raise Skip('no transfer')
    if kind != 'MUC' and second > 0.98 * rho:
        raise Skip('nearly degenerate')
    if kind == 'TM':
        arg = A[0]
        eta, v, n = arp(mf.TMeigs, arg, direction=dr, numeig=k, which='LR')
    elif kind == 'UC':
        arg = L.MPS([a.copy() for a in A]) if form == 'mps' else A
        eta, v, n = arp(mf.UnitcellTMeigs, arg, direction=dr, numeig=k, which=which, ncv=30, nmax=3000)
    else:
        eta, v, n = arp(mf.MixedUnitcellTMeigs, B, A, direction=dr, numeig=k, which='LM', ncv=30, nmax=3000)
    v = np.asarray(v)
    need(v.shape == (E.shape[0],), '{}: eigenvector has shape {}', kind, v.shape)
    need(np.linalg.norm(v) > 1e-8, '{}: eigenvector vanishes', kind)
    res = (v.dot(E) if dr > 0 else E.dot(v)) - eta * v
    need(np.linalg.norm(res) < 1e-7 * rho * np.linalg.norm(v) + 1e-9 * np.linalg.norm(E) * np.linalg.norm(v), '{}: residual {:.2e} for eigenvalue {}', kind, np.linalg.norm(res), eta)
    need(abs(abs(eta) - rho) < 1e-7 * rho + 1e-9 * np.linalg.norm(E), '{}: eigenvalue {} is not dominant; spectral radius {}', kind, eta, rho)
    if kind != 'MUC':
        need(abs(eta - rho) < 1e-7 * rho + 1e-9 * np.linalg.norm(E), '{}: dominant eigenvalue of a transfer operator is positive, got {}', kind, eta)
        if not c['c']:
            need(np.isrealobj(v) and np.isrealobj(eta), '{}: complex result for a real state', kind)
    return E.shape[0] > 1, '{} {}'.format(kind, dr)


# ------------------------------------------------------------------------------------------------ densities and layers
def s_dens(st):
    return st.tuples(inf.cell(st, nmax=4), st.sampled_from([1, -1]), st.sampled_from(['list', 'mps']), st.booleans().map(int), gen.seeds(st)).map(list)


def r_dens(case):
    c, dr, form, cv, s = case
    A = inf.build(c)
    n = len(A)
    D = A[0].shape[0] if dr > 0 else A[-1].shape[1]
    x = q.gauss(q.rng('x', s), (D, D), cv)
    keep = x.copy()
    arg = L.MPS([a.copy() for a in A]) if form == 'mps' else A
    out = mf.computeDensity(x, arg, dr)
    need(np.array_equal(x, keep), 'computeDensity changed its input')
    need(len(out) == n + 1, 'computeDensity: {} matrices for {} sites', len(out), n)
    v = x.reshape(-1)
    if dr > 0:
        for i in range(n + 1):
            q.need_close(np.asarray(out[i]).reshape(-1), v, 'computeDensity: bond {}'.format(i), 1e-10)
            if i < n:
                v = v.dot(inf.tm(A[i]))
    else:
        for i in range(n, -1, -1):
            q.need_close(np.asarray(out[i]).reshape(-1), v, 'computeDensity: bond {}'.format(i), 1e-10)
            if i > 0:
                v = inf.tm(A[i - 1]).dot(v)
    return D > 1, '{}'.format(dr)


# ------------------------------------------------------------------------------------------------ linear systems
def s_gmres(st):
    return st.tuples(st.sampled_from(['block', 'block', 'tdvp', 'cell']), inf.cell(st, nmax=3, Dmax=4, cplx=None), inf.cell(st, nmax=3, Dmax=4),
                     st.sampled_from([1, -1]), st.sampled_from([0.0, 0.0, 0.5, -0.5, 3.14159, -1.2, 2.0]), st.booleans().map(int), st.booleans().map(int), gen.seeds(st)).map(list)


def r_gmres(case):
    kind, c, b, dr, mom, mixed, cv, s = case
    if kind != 'cell':
        c = dict(c, d=c['d'][:1], D=c['D'][:1])
    A, B, c2 = pair(c, b)
    if kind == 'cell':
        mixed, mom = 0, 0.0
    if not mixed:
        B = A
    ea = np.max(np.abs(np.linalg.eigvals(inf.cell_tm(A))))
    eb = np.max(np.abs(np.linalg.eigvals(inf.cell_tm(B))))
    if min(ea, eb) < 1e-10:
        raise Skip('no transfer')
    A = [A[0] / np.sqrt(ea)] + A[1:]
    B = A if not mixed else [B[0] / np.sqrt(eb)] + B[1:]
    E = inf.cell_tm(A, B)
    Da, Db = A[0].shape[0], B[0].shape[0]
    r = q.rng('g', s)
    if mixed:
        l = q.gauss(r, (Da, Db), c['c'])
        rr = q.gauss(r, (Da, Db), c['c'])
        l, rr = l / np.linalg.norm(l), rr / np.linalg.norm(rr)
    else:
        o = inf.Inf(A)
        if not o.good(0.97, 1e-6):
            raise Skip('not injective')
        l, rr = o.bond(0)
        if not c['c']:
            l, rr = l.real, rr.real
    P = np.outer(rr.reshape(-1), l.reshape(-1))
    M = np.eye(Da * Db) - E * (np.exp(1j * mom) if mom else 1.0)
    if not mom:
        M = M + P
    if np.linalg.cond(M) > 1e4:
        raise Skip('ill-conditioned system')
    ih = q.gauss(r, (Da, Db), cv)
    keep = ih.copy()
    what = '{} direction {} momentum {}'.format(kind, dr, mom)
    if kind == 'cell':
        ld, rd = [l] * (len(A) + 1), [rr] * (len(A) + 1)
        dt = np.result_type(A[0].dtype, ih.dtype)
        x, info = mf.TDVPGMRESUC(A, ld, rd, ih.reshape(-1), np.zeros(Da * Da), tolerance=1e-11, datatype=dt, direction=dr)
        need(info == 0, '{}: solver did not converge: {}', what, info)
    else:
        f = mf.RENORMBLOCKHAMGMRES if kind == 'block' else mf.TDVPGMRES
        x = f(A[0], B[0], rr, l, ih, x0=None, tolerance=1e-11, maxiteration=2000, direction=dr, momentum=mom)
        need(np.shape(x) == (Da, Db), '{}: solution has shape {}', what, np.shape(x))
    need(np.array_equal(keep, ih), '{}: inhomogeneity changed', what)
    x = np.asarray(x).reshape(-1)
    res = (x.dot(M) if dr > 0 else M.dot(x)) - ih.reshape(-1)
    need(np.linalg.norm(res) < 1e-7 * np.linalg.norm(ih), '{}: residual {:.2e} of a right-hand side of norm {:.2e}', what, np.linalg.norm(res), np.linalg.norm(ih))
    return Da > 1, '{}{}{}'.format(kind, ' mixed' if mixed else '', ' k' if mom else '')


# ------------------------------------------------------------------------------------------------ energy densities
def s_energy(st):
    return st.tuples(inf.cell(st, nmax=3, Dmax=4, wrap=2, kinds=['rand', 'rand', 'near', 'pos', 'decay']), st.sampled_from(['left', 'right', 'bound', 'bound']),
                     st.lists(st.integers(0, 2), min_size=1, max_size=3), st.booleans().map(int), st.integers(0, 3), gen.seeds(st)).map(list)


def inf_mpo(d, K, c, s, onsite=True):
    """MPO tensors of a translation invariant nearest-neighbour Hamiltonian with the given cell (bond i = left of site i)"""
    r = q.rng('mpo', s)
    n = len(d)
    K = [K[i % len(K)] for i in range(n)]
    W = []
    terms = [(q.rand_op(r, d[i - 1], c, 'herm'), q.rand_op(r, d[i], c, 'herm')) for i in range(n) for _ in range(0)]
    bond = [[(q.rand_op(r, d[i - 1], c, 'herm') / 2, q.rand_op(r, d[i], c, 'herm') / 2) for _ in range(K[i])] for i in range(n)]
    ons = [q.rand_op(r, d[i], c, 'herm') / 2 if onsite else np.zeros((d[i], d[i])) for i in range(n)]
    for i in range(n):
        kl, kr = K[i], K[(i + 1) % n]
        w = np.zeros((kl + 2, kr + 2, d[i], d[i]), dtype=complex if c else float)
        w[0, 0] = np.eye(d[i])
        w[-1, -1] = np.eye(d[i])
        w[-1, 0] = ons[i]
        for k in range(kl):
            w[1 + k, 0] = bond[i][k][1]
        for k in range(kr):
            w[-1, 1 + k] = bond[(i + 1) % n][k][0]
        W.append(w)
    return W, bond, ons


def energy(o, bond, ons):
    """exact energy per cell from dense fixed points"""
    n = o.n
    e = 0.0
    for i in range(n):
        e += o.expect({i: ons[i]})
        for a, b in bond[(i + 1) % n]:
            e += o.expect({i: a, i + 1: b})
    return e


def layer(E, A, W, dr):
    """E[ket,bra,m] times one site"""
    if dr > 0:
        return np.einsum('abm,acs,mnst,bdt->cdn', E, A, W, A.conj(), optimize=True)
    return np.einsum('cdn,acs,mnst,bdt->abm', E, A, W, A.conj(), optimize=True)


def r_energy(case):
    c, mode, K, onsite, mv, s = case
    ts = inf.build(c)
    o = inf.Inf(ts)
    if not o.good(0.9, 1e-4):
        raise Skip('not injective or ill-conditioned')
    n = len(ts)
    W, bond, ons = inf_mpo(c['d'], K, c['c'], s, onsite)
    e = energy(o, bond, ons)
    mpo = Hm.MPO([w.copy() for w in W])
    what = 'energy ' + mode
    scale = 1.0 + sum(np.linalg.norm(a) for a in ons) + sum(np.linalg.norm(a) * np.linalg.norm(b) for x in bond for a, b in x)
    if mode in ('left', 'right'):
        A = [t.copy() for t in ts]
        mf.regaugeIMPS(A, gauge=mode, tol=1e-14)
        a = inf.Inf(A)
        D = A[0].shape[0]
        dr = 1 if mode == 'left' else -1
        # exact fixed points: identity on one side, the other normalised to trace one
        fp = a.r if dr > 0 else a.l
        fp = fp / np.trace(fp)
        if not c['c']:
            fp = fp.real
        if dr > 0:
            rd, ld = mf.computeDensity(fp, A, -1), mf.computeDensity(np.eye(D), A, 1)
        else:
            ld, rd = mf.computeDensity(fp, A, 1), mf.computeDensity(np.eye(D), A, -1)
        E, h = mf.computeUCsteadyStateHamiltonianGMRES(A, mpo, np.zeros(D * D), ld, rd, direction=dr, thresh=1e-12, imax=2000)
        need(abs(h - e) < 1e-7 * scale, '{}: energy per unit cell {} instead of {}', what, h, e)
        X = E
        for i in (range(n) if dr > 0 else range(n - 1, -1, -1)):
            X = layer(X, A[i], W[i], dr)
        j = 0 if dr > 0 else -1
        X[:, :, j] = X[:, :, j] - e * np.eye(D)
        q.need_close(X, E, what + ': adding a unit cell to the infinite environment does not reproduce it (up to the energy per cell)', 1e-6, scale + np.linalg.norm(E))
    else:
        m = L.MPS([t.copy() for t in ts])
        m._Z = 1.0
        re = True
        if mv == 3:
            m.regauge('symmetric', tol=1e-14)
            m.position(s % (n + 1))
        elif mv:
            m.regauge(['left', 'right'][mv - 1], tol=1e-14)
            m.position(n if mv == 2 else 0)
        lb, rb, lbound, rbound, hl, hr = mf.getBoundaryHams(m, mpo, regauge=re)
        what += ' regauge' if re else ''
        need(abs(hl - e) < 1e-6 * scale, '{}: left energy per unit cell {} instead of {}', what, hl, e)
        need(abs(hr - e) < 1e-6 * scale, '{}: right energy per unit cell {} instead of {}', what, hr, e)
        f = inf.fidelity(ts, inf.of_mps(m))
        need(abs(f - 1) < 1e-7, '{}: the state changed: fidelity {}', what, f)
        # k unit cells between the environments: the energy grows by e per cell
        p = m._position
        chain = [np.array(t) for t in m._tensors]
        if p < n:
            chain[p] = np.tensordot(m._mat, chain[p], ([1], [0]))
        else:
            chain[-1] = np.swapaxes(np.tensordot(chain[-1], m._mat, ([1], [0])), 1, 2)
        nxt = [np.array(t) for t in chain]
        nxt[0] = np.tensordot(m._connector, nxt[0], ([1], [0]))
        X = lb
        es, ns = [], []
        N = np.eye(lb.shape[0]).reshape(-1)
        for k in range(3):
            for t, w in zip(chain if k == 0 else nxt, W):
                X = layer(X, t, w, 1)
                N = N.dot(inf.tm(t))
            es.append(np.sum(X * rb))
            ns.append(np.trace(N.reshape(rb.shape[0], -1)))
        es = np.array(es) / np.array(ns)
        need(np.all(np.abs(np.diff(es) - e) < 1e-5 * scale), '{}: energy between the environments grows by {} per cell instead of {}', what, np.diff(es), e)
    return True, '{} n{}{}'.format(mode, n, ' onsite' if onsite else '')


FACETS = [
    Facet('product', s_prod, r_prod, 1000, rule='bond dimension >= 2'),
    Facet('eigenvector', s_eigs, r_eigs, 600, rule='more than one eigenvalue'),
    Facet('density', s_dens, r_dens, 200, rule='bond dimension >= 2'),
    Facet('linear', s_gmres, r_gmres, 700, rule='bond dimension >= 2 and a well-conditioned system'),
    Facet('energy', s_energy, r_energy, 250, rule='injective state with bond dimension >= 2 and a random nearest-neighbour Hamiltonian'),
]
