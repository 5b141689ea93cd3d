"""C10: two-site gates are the exponentials of bond terms that sum up to the Hamiltonian."""
from spec import Facet, Violation, Skip, need
import gen
import c09

RULE = 'the Hamiltonian has a non-zero bond term and time step is non-zero'
ASSUMPTIONS = ['nearest-neighbour operators in the lower-triangular form all models of the package use (identity, couplings, on-site term)']


def load():
    global q, np, M, Hm, expm
    import numpy as np, qlib as q, models as M
    import lib.mpslib.Hamiltonians as Hm
    c09.load()

    def expm(A):
        """scaling and squaring with a Taylor series: independent of scipy"""
        A = np.array(A, dtype=complex)
        nrm = np.linalg.norm(A)
        k = max(0, int(np.ceil(np.log2(nrm))) + 4) if nrm > 0 else 0
        B = A / 2.0**k
        term = np.eye(A.shape[0], dtype=complex)
        res = term.copy()
        for i in range(1, 25):
            term = term.dot(B) / i
            res = res + term
        for _ in range(k):
            res = res.dot(res)
        return res


def times(st, cplx=True):
    r = st.sampled_from([0.0, 0.1, -0.1, 0.01, 1.0, -0.5, 0.37, 1e-4])
    im = st.sampled_from([0.1, -0.1, 0.01, 1.0, -0.3, 1e-3])
    o = [r.map(lambda x: [x, 0.0]), im.map(lambda x: [0.0, x])]
    if cplx:
        o.append(st.tuples(r, im).map(list))
    return st.one_of(*o)


def tau_of(t):
    return t[0] if t[1] == 0 else complex(t[0], t[1])


def tri_strategy(st):
    """generic nearest-neighbour operators with site-dependent dimensions"""
    @st.composite
    def f(draw):
        d = draw(gen.dims(st, 2, 5, 1, 3, cap=100))
        return {'d': d, 'K': [draw(st.integers(0, 3)) for _ in range(len(d) - 1)], 'c': int(draw(st.booleans())), 's': draw(gen.seeds(st)),
                't': draw(times(st)), 't2': draw(times(st)), 'loc': draw(st.booleans())}
    return f()


def tri(case):
    """MPO tensors, the bond terms h_n and the full matrix of a random Hermitian nearest-neighbour Hamiltonian"""
    r = q.rng('tri', case['s'])
    d, K = case['d'], case['K']
    N = len(d)
    herm = lambda n: q.rand_op(r, n, case['c'], 'herm')
    A = [[herm(d[n]) for _ in range(K[n])] for n in range(N - 1)]
    B = [[herm(d[n + 1]) for _ in range(K[n])] for n in range(N - 1)]
    loc = [herm(dn) if case['loc'] else np.zeros((dn, dn)) for dn in d]
    ts = []
    for n in range(N):
        Ml = 1 if n == 0 else K[n - 1] + 2
        Mr = 1 if n == N - 1 else K[n] + 2
        t = np.zeros((Ml, Mr, d[n], d[n]), dtype=complex if case['c'] else float)
        if n > 0:
            t[0, 0] = np.eye(d[n])
            for k in range(K[n - 1]):
                t[1 + k, 0] = B[n - 1][k]
        t[-1, 0] = loc[n]
        if n < N - 1:
            for k in range(K[n]):
                t[-1, 1 + k] = A[n][k]
            t[-1, -1] = np.eye(d[n])
        ts.append(t)
    H = M.chain(d, lambda n: list(zip(A[n], B[n])), lambda n: loc[n])
    hs = []
    for n in range(N - 1):
        wl = 1.0 if n == 0 else 0.5
        wr = 1.0 if n == N - 2 else 0.5
        h = wl * np.kron(loc[n], np.eye(d[n + 1])) + wr * np.kron(np.eye(d[n]), loc[n + 1])
        for a, b in zip(A[n], B[n]):
            h = h + np.kron(a, b)
        hs.append(h)
    return ts, hs, H


def embed(h, n, d):
    return np.kron(np.kron(np.eye(int(np.prod(d[:n]))), h), np.eye(int(np.prod(d[n + 2:]))))


def mat(g):
    a, b, c, e = g.shape
    return g.reshape(a * b, c * e)


def check_gates(mpo, hs, H, d, tau, tau2, what, real):
    N = len(d)
    scale = max(1.0, np.linalg.norm(H))
    q.need_close(sum(embed(h, n, d) for n, h in enumerate(hs)), H, what + ': (oracle) bond terms', tol=1e-12, scale=scale)
    tot = np.zeros(H.shape, dtype=complex)
    for n in range(N - 1):
        g = mpo.twoSiteGate(n, n + 1, tau)
        need(g.shape == (d[n], d[n + 1], d[n], d[n + 1]), '{}: gate of shape {}', what, g.shape)
        ref = expm(tau * hs[n])
        s = max(1.0, np.linalg.norm(ref), np.linalg.norm(expm(-tau * hs[n])))
        q.need_close(mat(g), ref, '%s: gate on bond %d of %d, tau=%s' % (what, n, N, tau), tol=1e-10, scale=s)
        q.need_close(mpo.twoSiteGate(n + 1, n, tau), g, what + ': sites in reverse order', tol=1e-12, scale=s)
        q.need_close(mat(mpo.twoSiteGate(n, n + 1, 0.0)), np.eye(d[n] * d[n + 1]), what + ': gate at time zero', tol=1e-13)
        g2, g12 = mpo.twoSiteGate(n, n + 1, tau2), mpo.twoSiteGate(n, n + 1, tau + tau2)
        s2 = max(s, np.linalg.norm(mat(g12)), np.linalg.norm(g) * np.linalg.norm(g2))
        q.need_close(mat(g).dot(mat(g2)), mat(g12), what + ': gates of two times do not compose', tol=1e-10, scale=s2)
        gi = mpo.twoSiteGate(n, n + 1, -tau)
        q.need_close(mat(g).dot(mat(gi)), np.eye(d[n] * d[n + 1]), what + ': not inverted by time reversal', tol=1e-10,
                     scale=max(1.0, np.linalg.norm(g) * np.linalg.norm(gi)))
        x = abs(tau) or 0.1
        gu = mat(mpo.twoSiteGate(n, n + 1, 1j * x))
        q.need_close(gu.dot(gu.conj().T), np.eye(d[n] * d[n + 1]), what + ': not unitary for imaginary argument', tol=1e-11)
        gr = mat(mpo.twoSiteGate(n, n + 1, x))
        q.need_close(gr, gr.conj().T, what + ': not Hermitian for real argument', tol=1e-11)
        if real and tau == np.real(tau):
            need(not np.iscomplexobj(g) or np.linalg.norm(g.imag) < 1e-12 * s, '{}: real gate with imaginary part', what)
        e = 1e-3 / scale                      # generator recovered from the gates alone
        gp, gm = mat(mpo.twoSiteGate(n, n + 1, e)), mat(mpo.twoSiteGate(n, n + 1, -e))
        tot += embed((gp - gm) / (2 * e), n, d)
    q.need_close(tot, H, what + ': generators of all gates do not sum to the Hamiltonian', tol=1e-5, scale=scale)


def run_tri(case):
    ts, hs, H = tri(case)
    mpo = Hm.MPO(ts)
    q.need_close(q.mpo_dense(ts), H, '(oracle) dense operator', tol=1e-12, scale=max(1.0, np.linalg.norm(H)))
    check_gates(mpo, hs, H, case['d'], tau_of(case['t']), tau_of(case['t2']), 'random Hamiltonian', not case['c'])
    return len(case['d']) >= 3 and sum(case['K']) > 0 and case['t'] != [0.0, 0.0], 'N%d' % len(case['d'])


def model_strategy(st):
    return st.tuples(c09.models_strategy(st, nmax=5), times(st), times(st)).map(lambda t: dict(t[0], t=t[1], t2=t[2]))


def run_model(case):
    name, N, par = case['m'], case['N'], case['p']
    mpo = M.build(Hm, name, par, True, c09.dtype_of(case))
    d = [2 if name not in ('JessHamiltonian', 'HubbardChain') else 4] * N
    H = M.dense(name, par)
    sig = c09.SIG[name]

    def sub(n):
        out = []
        for c, p in zip(sig, par):
            if c == 'b':
                out.append([p[n]])
            else:
                out.append([p[n] * (1.0 if n == 0 else 0.5), p[n + 1] * (1.0 if n == N - 2 else 0.5)])
        return M.dense(name, out)
    check_gates(mpo, [sub(n) for n in range(N - 1)], H, d, tau_of(case['t']), tau_of(case['t2']), name, name not in ('JessHamiltonian', 'XXZflipped'))
    return N >= 3 and c09.nontriv(par) and case['t'] != [0.0, 0.0], name


FACETS = [
    Facet('tri', tri_strategy, run_tri, 1200, rule='at least three sites, a bond coupling and a non-zero time'),
    Facet('model', model_strategy, run_model, 1200, rule='at least three sites, non-zero couplings and a non-zero time'),
]
