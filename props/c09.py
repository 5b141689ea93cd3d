"""C09: the MPOs of the models multiply out to the textbook Hamiltonians."""
from spec import Facet, Violation, Skip, need
import gen

RULE = 'at least three sites (two for the single bond forms) and all couplings of at least one bond and one site non-zero and different'
ASSUMPTIONS = ['couplings are real numbers; fermionic models are compared after Jordan-Wigner in the local basis order (down,up)',
               'the half-finished functions projectedTwoBosonsModel and projectedLiebLinigermpo3(obc=True), and the measurement helpers LiebLinigerEdens, UnitcellExLiebLinigermpo are not models and not covered']


def load():
    global q, np, M, Hm
    import numpy as np, qlib as q, models as M
    import lib.mpslib.Hamiltonians as Hm


COUP = [0.0, 1.0, -1.0, 0.5, -2.0, 3.25, 0.1, -0.7, 1.7, 1e-3]


def coup(st, n):
    v = st.one_of(st.sampled_from(COUP), st.floats(-3, 3, allow_nan=False).map(lambda x: round(x, 3)))
    return st.lists(v, min_size=n, max_size=n)


NAMES = ['TFI', 'TFI_2', 'XXZ', 'XXZflipped', 'JessHamiltonian', 'SpinlessFermions', 'HubbardChain']
SIG = {'TFI': 'bs', 'TFI_2': 'bs', 'XXZ': 'bbs', 'XXZflipped': 'bb', 'JessHamiltonian': 'bss', 'SpinlessFermions': 'bbs',
       'HubbardChain': 'sbbss'}


def models_strategy(st, nmin=2, nmax=6, names=NAMES, pbc=False):
    @st.composite
    def f(draw):
        name = draw(st.sampled_from(names))
        big = name in ('JessHamiltonian', 'HubbardChain')
        N = draw(st.integers(1 if pbc else nmin, 4 if big else nmax))
        if pbc:
            N = min(N, 2 if big else 3)
        par = [draw(coup(st, N if (pbc or c == 's') else N - 1)) for c in SIG[name]]
        return {'m': name, 'p': par, 'N': N, 'dt': draw(st.sampled_from([None, 'float', 'complex']))}
    return f()


def dtype_of(case):
    name, dt = case['m'], case['dt']
    if dt is None or name == 'JessHamiltonian':
        return None
    if name == 'XXZflipped' and dt == 'float':
        return None                      # has imaginary entries
    return float if dt == 'float' else complex


def nontriv(par):
    flat = [abs(x) for p in par for x in p]
    return len(par[0]) >= 1 and all(any(abs(x) > 1e-2 for x in p) for p in par) and len(set(flat)) >= 2


def run_open(case):
    mpo = M.build(Hm, case['m'], case['p'], True, dtype_of(case))
    N = case['N']
    need(len(mpo) == N, '{}: {} tensors for {} sites', case['m'], len(mpo), N)
    D = q.mpo_dense([np.array(mpo[n]) for n in range(N)])
    H = M.dense(case['m'], case['p'])
    q.need_close(D, H, case['m'] + ': dense operator', tol=1e-12, scale=max(1.0, np.linalg.norm(H)))
    need(np.linalg.norm(D - D.conj().T) <= 1e-12 * max(1.0, np.linalg.norm(H)), '{}: not Hermitian', case['m'])
    need(np.dtype(mpo.dtype) == mpo[0].dtype, '{}: dtype {} but tensors are {}', case['m'], mpo.dtype, mpo[0].dtype)
    return N >= 3 and nontriv(case['p']), case['m']


def run_bulk(case):
    """infinite form, repeated, with opened ends"""
    name, N = case['m'], case['N']
    mpo = M.build(Hm, name, case['p'], False, dtype_of(case))
    need(len(mpo) == N, '{}: {} tensors for a unit cell of {}', name, len(mpo), N)
    rep = case['rep']
    while N * rep < 2:
        rep += 1
    ts = [np.array(mpo[n % N]) for n in range(N * rep)]
    for t in ts:
        need(t.shape[0] == t.shape[1] == ts[0].shape[0], '{}: bulk tensor of shape {}', name, t.shape)
        M_ = t.shape[0]
        eye = np.eye(t.shape[2])
        need(np.allclose(t[0, 0], eye) and np.allclose(t[-1, -1], eye), '{}: identity channels missing', name)
        need(not np.any(t[0, 1:]) and not np.any(t[:-1, -1]), '{}: not lower triangular', name)
    D = q.mpo_dense(M.open_ends(ts))
    par = []
    for c, p in zip(SIG[name], case['p']):
        pp = list(p) * rep
        par.append(pp if c == 's' else pp[:-1])
    H = M.dense(name, par)
    q.need_close(D, H, name + ' (infinite form): dense operator of %d cells' % rep, tol=1e-12, scale=max(1.0, np.linalg.norm(H)))
    return nontriv(case['p']) and N * rep >= 3, name


def bulk_strategy(st):
    return st.tuples(models_strategy(st, pbc=True), st.integers(1, 2)).map(lambda t: dict(t[0], rep=t[1]))


# ----------------------------------------------------------------------------------------------- list-valued lattice models
def lat_strategy(st):
    @st.composite
    def f(draw):
        name = draw(st.sampled_from(['PhiFourmpo', 'PhiFourmpo2', 'PhiFourmpo3', 'PhiFourmpo4', 'TwoSitePhiFourMPO',
                                     'LiebLinigermpo', 'LiebLinigermpo1', 'LiebLinigermpo2', 'LiebLinigermpo3',
                                     'HomogeneousLiebLinigermpo', 'LocalLiebLinigermpo', 'projectedLiebLinigermpo',
                                     'projectedLiebLinigermpo2', 'projectedLiebLinigermpo3',
                                     'projectedUnitcellExLiebLinigermpo']))
        pos = st.sampled_from([0.5, 1.0, 2.0, 0.3, 1.25])
        c = {'m': name, 'cut': draw(st.integers(2, 4)), 'N': draw(st.integers(2, 4)), 'obc': draw(st.booleans())}
        if c['cut'] ** c['N'] > 128:
            c['N'] = 3
        c['x'] = [draw(pos) for _ in range(4)]
        c['mu'] = draw(coup(st, c['N']))
        c['dx'] = [draw(pos) for _ in range(c['N'])]
        return c
    return f()


def run_lat(case):
    name, N, cut = case['m'], case['N'], case['cut']
    x = case['x']
    obc = case['obc']
    mu_l = np.array(case['mu'])
    eye = np.eye

    def bose(d):
        c = M.boson(d)
        return c, c.T, c.T.dot(c)
    if name.startswith('PhiFour') or name == 'TwoSitePhiFourMPO':
        mu, nu, g, dx = x
        c, cd, n = bose(cut)
        phi4 = sum(k * np.linalg.matrix_power(cd, 4 - i).dot(np.linalg.matrix_power(c, i)) for i, k in enumerate([1, 4, 6, 4, 1]))
        sq = c.dot(c) + cd.dot(cd)
        mass, anom = mu**2 + nu**2, mu**2 - nu**2
        if name == 'PhiFourmpo':
            ts = Hm.PhiFourmpo(mu, nu, g, N, dx, cut, obc)
            a, b, t, gg = mass / (8 * nu) + 1 / (2 * nu * dx**2), anom / (16 * nu), 1 / (2 * nu * dx**2), g / (96 * nu**2 * dx)
            loc = gg * phi4
        elif name == 'PhiFourmpo2':
            ts = Hm.PhiFourmpo2(mu, nu, g, N, dx, cut, obc)
            a, b, t, gg = mass / 4 + 1 / dx**2, anom / 8, 1 / dx**2, g / (96 * nu * dx)
            loc = gg * phi4
        elif name == 'PhiFourmpo3':
            ts = Hm.PhiFourmpo3(mu, nu, g, N, dx, cut, obc)
            a, b, t, gg = 1 / dx**2, 0.0, 1 / dx**2, g / (96 * nu * dx)
            loc = gg * phi4 + mass / 2 * n + anom / 4 * sq
        else:
            gg, t, a, b = g / (96 * nu * dx), 1 / dx**2, 0.0, 0.0
            loc = gg * phi4 + (mass / 2 + 2 / dx**2) * n + anom / 4 * sq
            if name == 'PhiFourmpo4':
                ts = Hm.PhiFourmpo4(mu, nu, g, N, dx, cut, obc)
            else:
                ts = Hm.TwoSitePhiFourMPO(mu, nu, g, dx, cut)
                N, obc, loc = 2, True, loc / 2
        bond = lambda i: [(-t * c, cd), (-t * cd, c), (a * n + b * sq, eye(cut)), (eye(cut), a * n + b * sq)]
        H = M.chain([cut] * N, bond, lambda i: loc)
        if not obc:
            ts = M.open_ends(ts)
    elif name.startswith('LiebLiniger'):
        mu, g, m, dx = x
        c, cd, n = bose(cut)
        t = 1 / (2 * m * dx**2)
        ts = M.open_ends(getattr(Hm, name)(mu, g, m, N, dx, cut))
        con = g / dx * cd.dot(cd).dot(c).dot(c)
        hop = [(-t * c, cd), (-t * cd, c)]
        if name == 'LiebLinigermpo':
            bond, site = (lambda i: hop), (lambda i: (mu + 2 * t) * n + con)
        elif name == 'LiebLinigermpo1':
            bond, site = (lambda i: hop + [((mu / 2 + t) * n, eye(cut)), (eye(cut), (mu / 2 + t) * n)]), (lambda i: con)
        elif name == 'LiebLinigermpo2':
            bond = lambda i: hop + [((mu / 2 + t) * n, eye(cut)), (eye(cut), (mu / 2 + t) * n), (g / dx * n, n)]
            site = lambda i: 0 * n
        else:
            bond = lambda i: hop + [(t * n, eye(cut)), (eye(cut), t * n), (g / dx * n, n)]
            site = lambda i: mu * n
        if name == 'LiebLinigermpo2':
            need(all(not np.any(np.array(tt)[-1, 0]) for tt in ts[1:-1]) if len(ts) > 2 else True, 'unexpected on-site term')
        H = M.chain([cut] * N, bond, site)
    elif name == 'LocalLiebLinigermpo':
        _, g, m, dx = x
        c, cd, n = bose(cut)
        t = 1 / (2 * m * dx**2)
        ts = Hm.LocalLiebLinigermpo(mu_l, g, m, dx, cut)
        ends = [mu_l[0], mu_l[-1]]
        N = 2
        H = M.chain([cut] * 2, lambda i: [(-t * c, cd), (-t * cd, c)],
                    lambda i: (ends[i] / 2 + t) * n + g / (2 * dx) * cd.dot(cd).dot(c).dot(c))
    elif name == 'HomogeneousLiebLinigermpo':
        g, m = x[0], x[1]
        c, cd, n = bose(2)
        P = eye(2) - n
        t = 1 / (2 * m)
        l, ce, r = Hm.HomogeneousLiebLinigermpo(g, m)
        ts = [l] + [ce] * (N - 2) + [r]
        H = M.chain([2] * N, lambda i: [(-t * c, cd), (-t * cd, c), (t * P, n), (t * n, P), (g * n, n)], lambda i: 0 * n)
    else:
        g, m, dx, _ = x
        t = 1 / (2 * m * dx**2)
        d = cut if name == 'projectedLiebLinigermpo2' else 2
        c, cd, n = bose(d)
        P = np.diag([1.] + [0.] * (d - 1))
        bond = lambda i: [(-t * c, cd), (-t * cd, c), (t * P, n), (t * n, P)] + ([(g / dx * n, n)] if d == 2 and name != 'projectedLiebLinigermpo2' else [])
        site = lambda i: mu_l[i] * n
        if name == 'projectedLiebLinigermpo':
            ts = Hm.projectedLiebLinigermpo(mu_l, g, m, N, dx, obc)
            if obc:
                site = lambda i: mu_l[i] * n * (0.5 if i in (0, N - 1) else 1.0)
            else:
                ts = M.open_ends(ts)
        elif name == 'projectedLiebLinigermpo2':
            ts = Hm.projectedLiebLinigermpo2(mu_l, g, m, N, d, dx, True)
            site = lambda i: mu_l[i] * n + g / dx * cd.dot(cd).dot(c).dot(c)
        elif name == 'projectedUnitcellExLiebLinigermpo':
            l, r = Hm.projectedUnitcellExLiebLinigermpo(mu_l, g, m, N, dx)
            ts = list(l) + list(r)
            mu2 = np.concatenate([mu_l, mu_l])
            N = 2 * N
            site = lambda i: mu2[i] * n
        else:
            dxs = case['dx']
            ts = M.open_ends(Hm.projectedLiebLinigermpo3(mu_l, g, m, np.array(dxs), False))
            dt = [(dxs[i] + dxs[(i + 1) % N]) / 2 for i in range(N)]

            def bond(i):
                k = 1 / (2 * m * dt[i])
                s = 1 / np.sqrt(dxs[i] * dxs[i + 1])
                return [(k * n / dxs[i], P), (k * P, n / dxs[i + 1]), (-k * s * c, cd), (-k * s * cd, c),
                        (g * dt[i] * n / dxs[i], n / dxs[i + 1]), (mu_l[i] / 2 * n, eye(2)), (eye(2), mu_l[i + 1] / 2 * n)]
            site = lambda i: 0 * n
        H = M.chain([d] * N, bond, site)
    need(len(ts) == N, '{}: {} tensors for {} sites', name, len(ts), N)
    D = q.mpo_dense([np.array(t) for t in ts])
    q.need_close(D, H, name + ': dense operator', tol=1e-12, scale=max(1.0, np.linalg.norm(H)))
    return len(set(x)) >= 2, name


# ----------------------------------------------------------------------------------------------- the generic MPO class
def gen_strategy(st):
    @st.composite
    def f(draw):
        d = draw(gen.dims(st, 1, 5, 1, 4, cap=200))
        return {'d': d, 'M': [draw(st.integers(1, 4)) for _ in range(len(d) - 1)], 'c': int(draw(st.booleans())), 's': draw(gen.seeds(st)),
                'how': draw(st.sampled_from(['init', 'fromlist', 'fromMPO'])), 'site': draw(st.integers(0, 10))}
    return f()


def run_gen(case):
    r = q.rng('mpo', case['s'])
    ts = q.rand_mpo(r, case['d'], case['M'], case['c'])
    ref = [t.copy() for t in ts]
    H = q.mpo_dense(ref)
    if case['how'] == 'init':
        m = Hm.MPO(ts)
    elif case['how'] == 'fromlist':
        m = Hm.MPO.fromlist(ts)
    else:
        m = Hm.MPO.fromMPO(Hm.MPO(ts))
    need(len(m) == len(ts), 'length {} instead of {}', len(m), len(ts))
    q.need_close(q.mpo_dense([m[n] for n in range(len(m))]), H, 'MPO from tensors', tol=1e-13)
    need(np.dtype(m.dtype) == np.dtype(complex if case['c'] else float), 'dtype {}', m.dtype)
    for t in ts:
        t += 1.0                             # the object owns its tensors
    q.need_close(q.mpo_dense([m[n] for n in range(len(m))]), H, 'MPO after its arguments were changed', tol=1e-13)
    k = case['site'] % len(ts)
    m[k] = 2.0 * ref[k]
    q.need_close(q.mpo_dense([m[n] for n in range(len(m))]), 2 * H, 'MPO after replacing a tensor', tol=1e-13)
    return len(ts) >= 2


FACETS = [
    Facet('open', lambda st: models_strategy(st), run_open, 2400, rule='N>=3 and every coupling list has a non-zero entry'),
    Facet('bulk', bulk_strategy, run_bulk, 800, rule='infinite form, at least three sites'),
    Facet('lattice', lat_strategy, run_lat, 1200, rule='parameters not all equal'),
    Facet('generic', gen_strategy, run_gen, 600, rule='at least two tensors'),
]
