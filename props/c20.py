"""C20: infinite-system ground-state searches."""
from spec import Facet, Skip, need
import gen, inf

RULE = 'Non-trivial: bond dimension at least 2 and couplings for which the exact ground state is no product state.'
ASSUMPTIONS = ['couplings are away from criticality and, for one-site cells, from phases that break translation by one site',
               'exactness is asserted for the disordered phase (field at least 1.5 times the total coupling), where the ground state is unique',
               'states whose transfer matrix has a gap below 1e-3 are skipped (their energy density is not defined by the tensors alone)',
               'Arnoldi solvers may refuse to converge (ArpackNoConvergence); such cases are skipped']


def load():
    global q, np, L, Hm, mf, E, X, Y, Z, I, iY
    import numpy as np
    import qlib as q
    L = q.lib()
    mf = L.mf
    import lib.mpslib.Hamiltonians as Hm
    import lib.mpslib.engines as E
    X = np.array([[0, 1.0], [1, 0]])
    Z = np.diag([1.0, -1])
    I = np.eye(2)
    Y = np.array([[0, -1j], [1j, 0]])
    iY = np.real(1j * Y)


def arp(f, *a, **k):
    from scipy.sparse.linalg import ArpackError
    try:
        return f(*a, **k)
    except ArpackError as e:
        raise Skip('ArpackError ' + str(e)[:40])


def exact(Jx, Jy, B, nk=160):
    """energy per site of sum_i Jx[i] X X + Jy[i] Y Y - B[i] Z with periodic couplings (free fermions, infinite chain)"""
    n = len(B)
    e = 0.0
    for k in (np.arange(nk) + .5) * 2 * np.pi / nk:
        A = np.zeros((n, n), complex)
        D = np.zeros((n, n), complex)
        for i in range(n):
            j = (i + 1) % n
            ph = np.exp(1j * k) if i == n - 1 else 1.0
            t, g = Jx[i] + Jy[i], Jx[i] - Jy[i]
            A[i, j] += t * ph
            A[j, i] += t * np.conj(ph)
            D[i, j] += g * ph
            D[j, i] -= g * np.conj(ph)
            A[i, i] += 2 * B[i]
        w = np.linalg.eigvalsh(np.block([[A, D], [D.conj().T, -A]]))
        e += -np.sum(w[w > 0]) / 2 + np.real(np.trace(A)) / 2 - sum(B)
    return e / nk / n


def mpo(Jx, Jy, B, c=0):
    out = []
    for i in range(len(B)):
        W = np.zeros((4, 4, 2, 2), complex if c else float)
        W[0, 0] = I
        W[3, 3] = I
        W[1, 0] = X
        W[2, 0] = -iY
        W[3, 1] = Jx[i] * X
        W[3, 2] = Jy[i] * iY
        W[3, 0] = -B[i] * Z
        out.append(W)
    return out


def energy(o, Jx, Jy, B):
    n = len(B)
    e = 0.0
    for i in range(n):
        e += Jx[i] * o.expect({i: X, i + 1: X}) + Jy[i] * o.expect({i: Y, i + 1: Y}) - B[i] * o.expect({i: Z})
    return float(np.real(e)) / n


def local(ts):
    o = inf.Inf(ts)
    if not abs(o.eta) > 1e-10 or o.gap > 0.999:
        raise Skip('no unique fixed point')
    return o


def derivative(T, Jx, Jy, B, r):
    """finite-difference derivative of the energy density in a random direction of unit length, relative to the tensor norm"""
    T = T / np.sqrt(abs(inf.Inf([T]).eta))
    d = q.gauss(r, T.shape, int(np.iscomplexobj(T)))
    d = d / np.linalg.norm(d)
    h = 1e-4
    return (energy(inf.Inf([T + h * d]), Jx, Jy, B) - energy(inf.Inf([T - h * d]), Jx, Jy, B)) / (2 * h)


def couplings(st, nmin, nmax, phases=('dis', 'dis', 'xx', 'ord')):
    @st.composite
    def f(draw):
        n = draw(st.integers(nmin, nmax))
        ph = draw(st.sampled_from(phases))
        sg = draw(st.sampled_from([1, -1]))
        num = st.sampled_from([0.3, 0.5, 0.7, 1.0])
        if ph == 'ord':
            Jx = [-draw(st.sampled_from([0.8, 1.0, 1.3]))] * n
            Jy = [draw(st.sampled_from([0.0, -0.2]))] * n
            B = [draw(st.sampled_from([0.1, 0.3, 0.5])) * abs(Jx[0]) * sg] * n
            return [ph, Jx, Jy, B]
        sx = draw(st.sampled_from([-1, 1]))
        Jx = [sx * draw(num) for _ in range(n)]
        Jy = [0.0] * n
        if ph == 'xx':
            sy = draw(st.sampled_from([-1, 1]))
            Jy = [sy * draw(num) for _ in range(n)]
        m = max(abs(a) + abs(b) for a, b in zip(Jx, Jy))
        B = [sg * m * draw(st.sampled_from([1.5, 1.8, 2.5, 4.0])) for _ in range(n)]
        return [ph, Jx, Jy, B]
    return f()


def bound(D, fine=1.0):
    """energy error that bond dimension D permits at field >= 1.5 coupling (measured, with margin)"""
    return {1: 1.0, 2: 2e-2, 3: 2e-3, 4: 2e-4, 5: 1e-4, 6: 2e-5, 7: 1e-5}.get(D, 5e-6)


# ------------------------------------------------------------------------------------------------ VUMPS
def s_vumps(st):
    return st.tuples(couplings(st, 1, 1), st.sampled_from([1, 2, 2, 3, 4, 5, 6]), st.sampled_from(['AR', 'LAN']), st.booleans().map(int), st.sampled_from([1, 1, 2]),
                     st.sampled_from(['list', 'mps']), st.booleans().map(int), st.booleans().map(int), st.sampled_from([3, 60, 60, 60]), gen.seeds(st)).map(list)


def r_vumps(case):
    (ph, Jx, Jy, B), D, solver, svd, k, form, c, cw, Nmax, s = case
    r = q.rng('vumps', s)
    np.random.seed(s % (2 ** 31))
    T = q.gauss(r, (D, D, 2), c)
    m = L.MPS([T.copy()]) if form == 'mps' else [T.copy()]
    eng = E.VUMPSengine(m, Hm.MPO(mpo(Jx, Jy, B, cw)), 'x')
    eps = 1e-6
    ret = float(np.real(arp(eng.simulate, Nmax=Nmax, epsilon=eps, solver=solver, svd=bool(svd), arnumvecs=k, checkpoint=0)))
    A, Bt, C = np.asarray(eng._A), np.asarray(eng._B), np.asarray(eng._mat)
    need(A.shape == (D, D, 2) and Bt.shape == (D, D, 2) and C.shape == (D, D), 'VUMPS: shapes {} {} {}', A.shape, Bt.shape, C.shape)
    need(np.array_equal(np.asarray(m[0]), T), 'VUMPS changed the initial tensor')
    q.close(np.tensordot(A, A.conj(), ([0, 2], [0, 2])), np.eye(D), 1e-9) or need(False, 'VUMPS: left tensor is not left-orthonormal')
    q.close(np.tensordot(Bt, Bt.conj(), ([1, 2], [1, 2])), np.eye(D), 1e-9) or need(False, 'VUMPS: right tensor is not right-orthonormal')
    ex = exact(Jx, Jy, B)
    need(ret > ex - 1e-6, 'VUMPS returns {:.12f} below the exact energy density {:.12f}', ret, ex)
    ea = energy(local([A]), Jx, Jy, B)
    eb = energy(local([Bt]), Jx, Jy, B)
    need(min(ea, eb) > ex - 1e-9, 'VUMPS: state energy {:.12f} {:.12f} below the exact energy density {:.12f}', ea, eb, ex)
    grad = float(np.real(eng._gradnorm))
    if Nmax > 3 and ph != 'ord' and D > 1:
        need(grad < eps, 'VUMPS {} svd {}: not converged after {} steps at D={}, gradient {:.2e}', solver, svd, Nmax, D, grad)
    if grad < eps:
        need(abs(ret - ea) < 1e-6 and abs(ret - eb) < 1e-6, 'VUMPS: returns {:.10f}, left state has {:.10f}, right state {:.10f}', ret, ea, eb)
        C = C / np.linalg.norm(C)
        x = np.tensordot(A, C, ([1], [0])).swapaxes(1, 2)
        y = np.tensordot(C, Bt, ([1], [0]))
        need(np.linalg.norm(x - y) < 1e-4, 'VUMPS: A C and C B differ by {:.2e} at gradient {:.1e}', np.linalg.norm(x - y), grad)
        f = abs(inf.fidelity([A], [Bt]))
        need(abs(f - 1) < 1e-6, 'VUMPS: left and right tensors describe different states, overlap per site {}', f)
        if ph != 'ord' and D > 1:
            need(ea - ex < bound(D), 'VUMPS {}: error {:.2e} at D={}', solver, ea - ex, D)
    return D > 1 and grad < eps, '{} {}'.format(ph, solver)


# ------------------------------------------------------------------------------------------------ IDMRG
def s_idmrg(st):
    return st.tuples(couplings(st, 2, 5, ('dis', 'dis', 'xx', 'ord')), st.sampled_from([1, 2, 3, 4, 6]), st.sampled_from(['AR', 'LAN']), st.sampled_from([0, 1]),
                     st.sampled_from([0, 0, 2, 3]), st.sampled_from(['none', 'left', 'right', 'symmetric']), st.sampled_from([1, 1, 2]), st.booleans().map(int), st.booleans().map(int),
                     st.integers(8, 14), gen.seeds(st)).map(list)


def r_idmrg(case):
    (ph, Jx, Jy, B), D, solver, two, rg, gauge, nuc, c, lib, Nmax, s = case
    n = len(B)
    r = q.rng('idmrg', s)
    np.random.seed(s % (2 ** 31))
    m = L.MPS([q.gauss(r, (D, D, 2), c) for _ in range(n)])
    m._obc = False                     # a list of tensors with outer bonds 1 is taken for a finite chain
    if gauge != 'none':
        arp(m.regauge, gauge)
    if two:
        m._D = max(4, D)
    cap = max(4, D) if two else D
    W = Hm.TFI(np.array(Jx), np.array(B), False) if lib and not any(Jy) else Hm.MPO(mpo(Jx, Jy, B))
    eng = E.IDMRGengine(m, W, 'x')
    f = eng.simulateTwoSite if two else eng.simulate
    arp(f, Nmax=Nmax, NUC=nuc, tol=1e-8, cp=None, verbose=0, solver=solver, regaugestep=rg, **({'truncation': 1e-12} if two else {}))
    out = eng.mps
    need(len(out) == n, 'IDMRG: cell of {} sites instead of {}', len(out), n)
    ts = inf.of_mps(out)
    for i in range(n):
        need(ts[i].shape[1] == ts[(i + 1) % n].shape[0] and ts[i].shape[2] == 2, 'IDMRG: shapes {}', [t.shape for t in ts])
        need(ts[i].shape[0] <= cap, 'IDMRG: bond dimension {} above {}', [t.shape for t in ts], cap)
        need(np.all(np.isfinite(ts[i])), 'IDMRG: tensor {} not finite', i)
    o = local(ts)
    ex = exact(Jx, Jy, B)
    # every iteration shifts the cell by half its length: identify the shift by the energy
    e = min(energy(o, list(np.roll(Jx, -j)), list(np.roll(Jy, -j)), list(np.roll(B, -j))) for j in range(n))
    need(e > ex - 1e-9, 'IDMRG: energy density {:.12f} below the exact {:.12f}', e, ex)
    tag = 'two-site' if two else 'one-site'
    if ph != 'ord':
        b = bound(cap)
        need(e - ex < b, 'IDMRG {} {} regaugestep {}: error {:.2e} at D={} with {} sites', tag, solver, rg, e - ex, cap, n)
    return cap > 1, '{} {} {}'.format(tag, solver, n)


# ------------------------------------------------------------------------------------------------ gradient search
def s_grad(st):
    return st.tuples(couplings(st, 1, 1), st.sampled_from([2, 2, 3, 4]), st.booleans().map(int), st.sampled_from([0.02, 0.05]), st.booleans().map(int), st.sampled_from([1, 2, 120]), gen.seeds(st)).map(list)


def r_grad(case):
    (ph, Jx, Jy, B), D, c, alpha, var, Nmax, s = case
    r = q.rng('grad', s)
    np.random.seed(s % (2 ** 31))
    T = q.gauss(r, (D, D, 2), c)
    A0, lam = arp(mf.regauge, T, gauge='left')
    scale = max(abs(v) for v in Jx + Jy + B)
    short = Nmax < 10
    a = (1e-3 if short else alpha) / scale
    als, ngs = ([a, a / 2], [1e-1, 1e-5]) if var else ([a], [1e-30])
    keep = np.array(A0)
    eng = E.HomogeneousIMPSengine(Nmax, A0, mpo(Jx, Jy, B)[0], 'x', a, als, ngs, complex if c else float, epsilon=1e-9, trunc=1e-100)
    arp(eng.simulate, checkpoint=10 ** 9)
    need(np.array_equal(keep, A0), 'gradient search changed the initial tensor')
    T1 = np.asarray(eng._mps)
    need(T1.shape == (D, D, 2) and np.all(np.isfinite(T1)), 'gradient search: tensor of shape {}', T1.shape)
    ex = exact(Jx, Jy, B)
    o0, o1 = local([A0]), local([T1])
    e0, e1 = energy(o0, Jx, Jy, B), energy(o1, Jx, Jy, B)
    need(e1 > ex - 1e-9, 'gradient search: energy density {:.12f} below the exact {:.12f}', e1, ex)
    g = float(np.real(eng._normgrad))
    if short:
        if o0.cond() < 1e-3 or o0.gap > 0.9:
            raise Skip('badly conditioned start')
        # descent: the energy falls by about 2 * alpha * |gradient|^2 per step
        need(e1 < e0 - 0.2 * a * g, 'gradient search: {} steps of {} changed the energy from {:.10f} to {:.10f} at squared gradient {:.2e}', Nmax, a, e0, e1, g)
        return g > 1e-6, 'short'
    if g < 1e-9:
        if o1.cond() < 1e-4 or o1.gap > 0.95:
            raise Skip('badly conditioned result')
        d = derivative(T1, Jx, Jy, B, r)
        need(abs(d) < 2e-3 * scale, 'gradient search: converged, but the energy has slope {:.2e}', d)
        return True, 'converged'
    return False, 'stopped'


FACETS = [
    Facet('vumps', s_vumps, r_vumps, 55, rule='bond dimension at least 2 and converged', case_timeout=120),
    Facet('idmrg', s_idmrg, r_idmrg, 32, rule='bond dimension at least 2', case_timeout=120),
    Facet('gradient', s_grad, r_grad, 35, rule='descent measured or convergence reached', case_timeout=120),
]
