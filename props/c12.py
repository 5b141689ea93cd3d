"""C12: DMRG is variational, honest and reaches the ground state."""
from spec import Facet, Skip, need
import gen, c09, c10

RULE = 'Non-trivial: an entangled local problem (bond dimension above 1) was optimised for a Hamiltonian with couplings.'
ASSUMPTIONS = ['Hermitian Hamiltonians; local dimensions of at least 2 (the sparse eigensolver needs problems of size 2)',
               'generic couplings for the convergence statement: sweeps can stay in an excited product state of a classical Hamiltonian',
               'two-site sweeps report the energy before the last truncation, so it may lie below the energy of the final state by the truncation error']


def load():
    global q, np, L, E, M, Hm
    import numpy as np, qlib as q, models as M
    L = q.lib()
    c10.load()
    c09.load()
    global ArpackError
    from scipy.sparse.linalg import ArpackError
    import lib.mpslib.engines as E
    import lib.mpslib.Hamiltonians as Hm


def ham(st, nmax=6):
    @st.composite
    def f(draw):
        if draw(st.booleans()):
            h = draw(c10.tri_strategy(st))
            h['d'] = [max(2, x) for x in h['d']]
            h['K'] = h['K'][:len(h['d']) - 1]
            return {'t': h}
        return {'m': draw(c09.models_strategy(st, 2, nmax))}
    return f()


def build(h):
    """MPO (list of tensors), dense H, local dimensions"""
    if 't' in h:
        ts, hs, H = c10.tri(h['t'])
        return ts, H, h['t']['d'], bool(sum(h['t']['K']))
    c = h['m']
    mpo = M.build(Hm, c['m'], c['p'], True, c09.dtype_of(c))
    ts = [np.array(mpo[n]) for n in range(c['N'])]
    H = q.mpo_dense(ts)
    return mpo, H, [t.shape[2] for t in ts], c09.nontriv(c['p'])


def s_var(st):
    @st.composite
    def f(draw):
        h = draw(ham(st))
        call = st.tuples(st.sampled_from(['one', 'one', 'two']), st.integers(1, 3), st.sampled_from(['AR', 'AR', 'LAN', 'LAN', 'LOBPCG']), st.sampled_from([1e-4, 1e-6, 1e-10]),
                         st.sampled_from([3, 10, 40]), st.sampled_from([1e-10, 1e-4, 0.0]), st.sampled_from([1, 1, 2]), st.sampled_from([2, 5, 10]))
        pos = st.tuples(st.sampled_from(['pos']), st.integers(0, 6))
        return {'h': h, 'D': draw(st.integers(1, 5)), 'cap': draw(st.sampled_from([0, 0, 3, 20])), 'c': int(draw(st.booleans())), 's': draw(gen.seeds(st)), 'rd': draw(st.sampled_from([0, 0, 1])),
                'calls': [list(x) for x in draw(st.lists(st.one_of(call, call, call, pos), min_size=1, max_size=3))]}
    return f()


def start(case, d, D):
    n = len(d)
    m = q.mk({'d': d, 'D': [D] * (n - 1), 'k': 'low' if case['rd'] else 'rand', 'c': case['c'], 's': case['s'], 'mv': [case['s'] % (n + 1)], 'z': 1.0, 'h': int(case['s'] % 3 == 1)})
    return m


def r_var(case):
    W, H, d, nt = build(case['h'])
    n = len(d)
    nh = np.linalg.norm(H, 2)
    if nh < 1e-8:
        raise Skip('vanishing Hamiltonian')
    E0 = np.linalg.eigvalsh(H)[0]
    m = start(case, d, case['D'])
    if case['cap']:
        m._D = max(case['cap'], max(m.D))
    eng = E.DMRGengine(m, W, 'dmrg')
    tags = set()
    for k, c in enumerate(case['calls']):
        if c[0] == 'pos':
            eng.position(c[1] % (n + 1))
            continue
        kind, Nmax, solver, tol, ncv, trunc, nv, Ndiag = c
        what = '%s-site %s, Nmax=%d tol=%g ncv=%d truncation=%g [call %d]' % (kind, solver, Nmax, tol, ncv, trunc, k)
        x = q.vec(eng.mps).ravel()
        x = x / np.linalg.norm(x)
        e_before = np.real(x.dot(H).dot(x.conj()))
        b0 = q.bonds(eng.mps)
        small = min(b0[i] * b0[i + 1] * d[i] for i in range(n))
        if nv >= small or solver != 'AR':
            nv = 1
        kw = dict(Nmax=Nmax, tol=tol, ncv=max(ncv, 2 * nv + 2), cp=[None, 1, 2, 10][case['s'] % 4], solver=solver, numvecs=nv, Ndiag=Ndiag)
        if kind == 'two':
            kw['truncation'] = trunc
        try:
            e = (eng.simulateTwoSite if kind == 'two' else eng.simulate)(**kw)
        except ArpackError as ex:             # ARPACK gives up loudly on some degenerate small problems
            raise Skip('ARPACK refused: %s' % str(ex)[:40])
        need(np.ndim(e) == 0 and abs(np.imag(e)) < 1e-9 * nh, '{}: energy {}', what, e)
        e = float(np.real(e))
        m = eng.mps
        q.check_shapes(m, d, what)
        y = q.vec(m).ravel()
        ny = np.linalg.norm(y)
        need(abs(ny - 1) < 1e-8, '{}: the state left behind has norm {}', what, ny)
        y = y / ny
        en = float(np.real(y.dot(H).dot(y.conj())))
        need(e >= E0 - 1e-9 * nh, '{}: energy {} below the exact ground-state energy {}', what, e, E0)
        b1 = q.bonds(m)
        cutd = False
        if kind == 'two':
            need(max(b1) <= m._D, '{}: bond dimensions {} exceed {}', what, b1, m._D)
            full = [min(int(np.prod(d[:i])), int(np.prod(d[i:]))) for i in range(n + 1)]
            cutd = m._D < max(full) or trunc > 1e-9
            need(e <= en + 1e-6 * nh, '{}: reported {} but the state has energy {}', what, e, en)
            if not cutd:
                need(abs(e - en) <= 1e-6 * nh, '{}: reported {} but the state has energy {}', what, e, en)
        else:
            need(all(a <= b for a, b in zip(b1, b0)), '{}: bond dimensions grew from {} to {}', what, b0, b1)
            need(abs(e - en) <= 1e-6 * nh, '{}: reported {} but the state has energy {}', what, e, en)
        if not cutd:
            need(en <= e_before + 1e-6 * nh, '{}: energy rose from {} to {}', what, e_before, en)
        q.check_canonical(m, what)
        k = m.copy()                          # measuring moves the gauge, the environments of the engine would be stale
        sx = [k.measureLocal(q.rand_op(q.rng('op'), d[i], 1, 'herm'), i) for i in range(n)]
        v = y.reshape(d)
        ref = [q.expect(v, [(i, q.rand_op(q.rng('op'), d[i], 1, 'herm'))]) for i in range(n)]
        q.need_close(np.array(sx), np.array(ref), 'local measurements after ' + what, scale=1.0, tol=1e-7)
        tags.add(kind + solver)
    return nt and bool(tags) and case['D'] > 1, '|'.join(sorted(tags))


# ---------------------------------------------------------------- with sufficient bond dimension the exact energy is reached
def s_conv(st):
    @st.composite
    def f(draw):
        h = draw(c10.tri_strategy(st))
        h['d'] = [max(2, x) for x in h['d']]
        h['K'] = [max(1, k) for k in h['K']]
        h['loc'] = True
        return {'h': h, 'c': int(draw(st.booleans())), 's': draw(gen.seeds(st)), 'two': int(draw(st.booleans())), 'sol': draw(st.sampled_from(['AR', 'LAN'])), 'rd': 0,
                'ncv': draw(st.sampled_from([6, 10, 40])), 'Ndiag': draw(st.sampled_from([2, 5, 10]))}
    return f()


def r_conv(case):
    W, hs, H = c10.tri(case['h'])
    d = case['h']['d']
    n = len(d)
    full = [min(int(np.prod(d[:i])), int(np.prod(d[i:]))) for i in range(1, n)]
    m = q.mk({'d': d, 'D': full, 'k': 'rand', 'c': case['c'], 's': case['s'], 'mv': [], 'z': 1.0})
    m._D = max(full)
    w, v = np.linalg.eigh(H)
    nh = max(abs(w))
    if len(w) > 1 and w[1] - w[0] < 1e-3 * nh:
        raise Skip('small gap')
    eng = E.DMRGengine(m, W, 'conv')
    kw = dict(Nmax=4, Econv=1e-12, tol=1e-10, ncv=case['ncv'], cp=None, solver=case['sol'], Ndiag=case['Ndiag'], landeltaEta=1e-11)
    e = np.real((eng.simulateTwoSite if case['two'] else eng.simulate)(**kw))
    what = '%s-site %s' % ('two' if case['two'] else 'one', case['sol'])
    need(abs(e - w[0]) < 1e-6 * nh, '{} with full bond dimension reaches {} instead of {}', what, e, w[0])
    y = q.vec(eng.mps).ravel()
    F = abs(np.vdot(v[:, 0].conj(), y)) ** 2
    need(F > 1 - 1e-3, '{}: overlap {} with the exact ground state', what, F)
    return max(full) > 1, what


FACETS = [
    Facet('variational', s_var, r_var, 480, rule='bond dimension above 1 and couplings present', thorough=8000),
    Facet('converge', s_conv, r_conv, 320, rule='more than one Schmidt value possible', thorough=6000),
]
