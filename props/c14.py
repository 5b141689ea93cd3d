"""C14: TDVP follows the exact dynamics and conserves norm and energy."""
from spec import Facet, Skip, need
import gen, c10, c13

RULE = 'Non-trivial: at least three sites with couplings and at least one step; per facet see there.'
ASSUMPTIONS = ['with full bond dimensions the tangent space is the whole space, so the splitting is exact and only the local solver limits the accuracy',
               'real-time evolution by t is dt=-i*t for every solver, as in TEBD',
               'the engine returns a normalised state; time is the accumulated |Im dt|',
               'reversibility and tangent-space statements use states without vanishing Schmidt values (random tensors), where the TDVP flow is smooth']


def load():
    global q, np, L, E, Hm, expm
    import numpy as np, qlib as q
    L = q.lib()
    c13.load()
    expm = c10.expm
    import lib.mpslib.engines as E
    import lib.mpslib.Hamiltonians as Hm


SOLVERS = ['LAN', 'LAN', 'RK45', 'RK45', 'SEXPMV', 'RK23', 'BDF', 'Radau', 'LSODA']
# solver -> (keyword arguments, accuracy per unit of |H dt| and step)
ACC = {'LAN': ({'krylov_dim': 24}, 1e-8), 'SEXPMV': ({}, 1e-6), 'RK45': ({'rtol': 1e-8, 'atol': 1e-11}, 1e-5), 'RK23': ({'rtol': 1e-6, 'atol': 1e-9}, 1e-3),
       'BDF': ({'rtol': 1e-6, 'atol': 1e-9}, 1e-2), 'Radau': ({'rtol': 1e-6, 'atol': 1e-9}, 1e-3), 'LSODA': ({'rtol': 1e-8, 'atol': 1e-11}, 1e-4)}


def ham(st, cap=40, nmax=5):
    @st.composite
    def f(draw):
        h = draw(c10.tri_strategy(st))
        d, p = [], 1
        for x in h['d']:
            x = max(2, x)
            if len(d) >= 2 and p * x > cap:
                break
            d.append(x)
            p *= x
        h['d'] = d
        h['K'] = [max(1, k) for k in h['K'][:len(d) - 1]]
        return h
    return f()


def calls(st):
    dt = st.one_of(st.sampled_from([[0.0, -0.1], [0.0, 0.1], [0.0, -0.02], [0.0, -0.4]]), st.sampled_from([[-0.1, 0.0], [0.05, 0.0], [-0.05, -0.05]]))
    return st.lists(st.tuples(dt, st.integers(0, 3), st.sampled_from(SOLVERS), st.integers(0, 2), st.one_of(st.none(), st.integers(0, 6)), st.sampled_from([0, 0, 1, 2]), st.booleans().map(int)).map(list), min_size=1, max_size=3)


def s_full(st):
    return st.tuples(ham(st), st.booleans().map(int), gen.seeds(st), calls(st), st.sampled_from(['rand', 'rand', 'low']), st.sampled_from([1.0, 1.0, 3.0])).map(list)


def full_D(d):
    n = len(d)
    return [min(int(np.prod(d[:i])), int(np.prod(d[i:]))) for i in range(1, n)]


def r_full(case):
    h, cp, s, prog, kind, z = case
    ts, hs, H = c10.tri(h)
    d = h['d']
    n = len(d)
    m = q.mk({'d': d, 'D': full_D(d), 'k': kind, 'c': cp, 's': s, 'mv': [s % (n + 1)], 'z': z, 'h': int(s % 3 == 1)})
    x0 = q.vec(m)
    eng = E.TimeEvolutionEngine(m, Hm.MPO(ts), 'tdvp')
    x = (x0 / np.linalg.norm(x0)).ravel()
    nh = max(np.linalg.norm(H, 2), 1e-12)
    t, it, tol, tags, nt = 0.0, 0, 1e-9, set(), False
    if q.bonds(eng.mps)[1:-1] != full_D(d):
        raise Skip('bond dimensions not full')
    for k, (dt, steps, solver, verb, pos, cp, keep) in enumerate(prog):
        dt = c10.tau_of([v * 3 / max(3.0, nh) for v in dt])
        kw, acc = ACC[solver]
        what = 'doTDVP(dt=%s, numsteps=%d, solver=%s, verbose=%d, cp=%s)%s [call %d]' % (dt, steps, solver, verb, cp or None, '' if pos is None else ' after position(%d)' % (pos % (n + 1)), k)
        if pos is not None:
            eng.position(pos % (n + 1))
        out = eng.doTDVP(dt=dt, numsteps=steps, verbose=verb, solver=solver, cp=cp or None, keep_cp=bool(keep), **kw)
        x = x.dot(expm(dt * steps * H))
        x = x / np.linalg.norm(x)
        t += steps * abs(np.imag(dt))
        it += steps
        tol += acc * steps * (1 if solver != 'LAN' else 1)
        y = q.vec(eng.mps).ravel()
        q.check_shapes(eng.mps, d, what)
        if it:
            need(abs(np.linalg.norm(y) - 1) < 1e-8, '{}: norm {}', what, np.linalg.norm(y))
            q.need_close(y, x, 'state after ' + what, tol=tol)
        else:
            q.need_close(y / np.linalg.norm(y), x, 'state after ' + what, tol=tol)
        q.check_canonical(eng.mps, what)
        need(abs(eng.time - t) < 1e-10 and abs(out - t) < 1e-10, '{}: time {} (returned {}) instead of {}', what, eng.time, out, t)
        need(eng.iteration == it, '{}: iteration {} instead of {}', what, eng.iteration, it)
        need(q.bonds(eng.mps)[1:-1] == full_D(d), '{}: bond dimensions {}', what, q.bonds(eng.mps))
        if steps:
            tags.add(solver)
            nt = nt or n >= 3
        x = y / np.linalg.norm(y)
        tol = 1e-9
    q.need_close(q.vec(m), x0, 'the state handed to the engine', tol=1e-12)
    return nt, '|'.join(sorted(tags))


# ---------------------------------------------------------------- any bond dimension: energy, norm, bonds, reversal, split
def s_cons(st):
    return st.tuples(ham(st, cap=100), st.integers(1, 3), st.booleans().map(int), gen.seeds(st), st.sampled_from([0.1, -0.1, 0.03, 0.3]), st.integers(1, 4), st.sampled_from(['LAN', 'LAN', 'RK45', 'SEXPMV', 'LSODA']), st.integers(0, 4)).map(list)


def r_cons(case):
    h, D, cp, s, dt, steps, solver, split = case
    ts, hs, H = c10.tri(h)
    d = h['d']
    n = len(d)
    m = q.mk({'d': d, 'D': [D] * (n - 1), 'k': 'rand', 'c': cp, 's': s, 'mv': [0], 'z': 1.0, 'h': int(s % 3 == 1)})
    sv = min(q.schmidt(q.vec(m), b)[min(D, full_D(d)[b - 1]) - 1] for b in range(1, n))
    nh = max(np.linalg.norm(H, 2), 1e-12)
    dt = dt * 3 / max(3.0, nh)
    x = q.vec(m).ravel()
    en = np.real(x.dot(H).dot(x.conj()))
    kw, acc = ACC[solver]
    what = '%d steps of %g with %s at D=%d' % (steps, dt, solver, D)

    def run(parts, dt, eng=None):
        e = eng or E.TimeEvolutionEngine(m, Hm.MPO(ts), 'tdvp')
        for p in parts:
            e.doTDVP(dt=-1j * dt, numsteps=p, verbose=0, solver=solver, **kw)
        return e
    eng = run([steps], dt)
    b0 = [1] + [min(D, k) for k in full_D(d)] + [1]        # (superfluous dimensions of the start are dropped)
    y = q.vec(eng.mps).ravel()
    need(abs(np.linalg.norm(y) - 1) < 1e-8, '{}: norm {}', what, np.linalg.norm(y))
    en1 = np.real(y.dot(H).dot(y.conj()))
    need(abs(en1 - en) < 1e-9 * nh + acc * steps * n * nh, '{}: energy changed from {} to {}', what, en, en1)
    need(q.bonds(eng.mps) == b0, '{}: bond dimensions {} instead of {}', what, q.bonds(eng.mps), b0)
    q.check_canonical(eng.mps, what)
    k = min(split, steps)
    e2 = run([k, steps - k], dt)
    tolr = (acc * steps * n * 10 + 1e-8) / min(1.0, max(sv, 1e-3))
    q.need_close(q.vec(e2.mps).ravel(), y, what + ' split into %d+%d' % (k, steps - k), tol=tolr)
    need(e2.iteration == eng.iteration == steps and abs(e2.time - eng.time) < 1e-12, '{}: time or step count depends on the split', what)
    back = run([steps], -dt, eng)
    sv2 = min(q.schmidt(y.reshape(d), b)[b0[b] - 1] for b in range(1, n))
    if min(sv, sv2) > 1e-2:
        q.need_close(q.vec(back.mps).ravel(), x, what + ' forth and back', tol=(acc * steps * n * 10 + 1e-8) / min(sv, sv2) ** 2)
    return n >= 3 and D > 1 and nh > 1e-6, solver


# ---------------------------------------------------------------- infinitesimal step = projection of -iH|psi> on the tangent space
def s_tan(st):
    return st.tuples(ham(st, cap=100), st.integers(1, 3), st.booleans().map(int), gen.seeds(st), st.sampled_from(['LAN', 'RK45', 'SEXPMV']), st.booleans().map(int)).map(list)


def r_tan(case):
    h, D, cp, s, solver, imag = case
    ts, hs, H = c10.tri(h)
    d = h['d']
    n = len(d)
    m = q.mk({'d': d, 'D': [D] * (n - 1), 'k': 'rand', 'c': cp, 's': s, 'mv': [0], 'z': 1.0, 'h': int(s % 3 == 1)})
    x = q.vec(m)
    sv = min(q.schmidt(x, b)[min(q.bonds(m)[b], full_D(d)[b - 1]) - 1] for b in range(1, n))
    if sv < 0.03:
        raise Skip('small Schmidt value')
    nh = max(np.linalg.norm(H, 2), 1e-12)
    e = 2e-4 / nh
    ph = 1.0 if imag else -1j
    kw = {'LAN': {'krylov_dim': 24}, 'RK45': {'rtol': 1e-12, 'atol': 1e-14}, 'SEXPMV': {}}[solver]
    out = []
    for sgn in (1, -1):
        eng = E.TimeEvolutionEngine(m, Hm.MPO(ts), 'tdvp')
        eng.doTDVP(dt=sgn * ph * e, numsteps=1, verbose=0, solver=solver, **kw)
        out.append(q.vec(eng.mps).ravel())
    x = x.ravel()
    der = (out[0] - out[1]) / (2 * e)
    # tangent space: replace any tensor by any other
    m.position(0)
    T = [t.copy() for t in m._tensors]
    T[0] = m.tensor(0)
    cols = []
    for i in range(n):
        lf = q.contract(T[:i]).reshape(-1, T[i].shape[0]) if i else np.ones((1, 1))
        rt = q.contract(T[i + 1:]).reshape(T[i].shape[1], -1) if i < n - 1 else np.ones((1, 1))
        P = np.einsum('xl,ry,st->xtylrs', lf, rt, np.eye(d[i])).reshape(x.size, -1)
        cols.append(P)
    J = np.concatenate(cols, axis=1)
    u, sg, _ = np.linalg.svd(J, full_matrices=False)
    u = u[:, sg > 1e-9 * sg[0]]
    hx = x.dot(H)
    if imag:
        hx = hx - np.real(np.vdot(x, hx)) * x
    ref = ph * u.dot(u.conj().T.dot(hx))
    q.need_close(der, ref, 'derivative of TDVP with %s at D=%d (%s time)' % (solver, D, 'imaginary' if imag else 'real'), tol=2e-3, scale=nh)
    res = np.linalg.norm(ph * hx - ref)
    return n >= 3 and res > 1e-3 * nh, ('projected' if res > 1e-3 * nh else 'full') + '|' + solver


FACETS = [
    Facet('full', s_full, r_full, 240, rule='three or more sites and at least one step', thorough=5000, case_timeout=300),
    Facet('conserve', s_cons, r_cons, 160, rule='bond dimension above 1', thorough=4000, case_timeout=300),
    Facet('tangent', s_tan, r_tan, 240, rule='the projection changes the derivative', thorough=5000, case_timeout=300),
]
