"""C15: Krylov solvers agree with dense linear algebra."""
from spec import Facet, Skip, need
import gen

RULE = 'Non-trivial: dimension above 2, the start vector is not an eigenvector and the operator is not diagonal.'
ASSUMPTIONS = ['Hermitian operators (gexpmv: any square matrix); norms of H*t up to about 10',
               'several eigenpairs at once are compared with reorthogonalisation switched on (plain Lanczos may return ghost copies, as its documentation warns)',
               'LOBPCG is judged with a wider tolerance: the library runs scipy with its default 20 iterations']


def load():
    global q, np, L, LZ, SX, expm, ArpackError
    import numpy as np
    import qlib as q
    import c10
    c10.load()
    expm = c10.expm
    L = q.lib()
    import lib.Lanczos.LanczosEngine as LZ
    import lib.mpslib.sexpmv as SX
    from scipy.sparse.linalg import ArpackError


HK = ['gauss', 'gauss', 'gauss', 'degenerate', 'block', 'diag', 'rank1', 'cluster', 'shifted']
VK = ['rand', 'rand', 'rand', 'eig', 'sub', 'unit']


def op(st, nmax=14):
    return st.tuples(st.integers(1, nmax), st.sampled_from(HK), st.booleans().map(int), st.sampled_from([1.0, 1.0, 0.01, 5.0]), gen.seeds(st)).map(list)


def mk_op(c):
    n, kind, cp, scale, s = c
    r = q.rng('op', s)
    A = q.gauss(r, (n, n), cp)
    A = (A + A.conj().T) / 2
    Q, _ = np.linalg.qr(q.gauss(r, (n, n), cp))
    if kind == 'degenerate':
        w = r.choice([-1.0, 0.5, 2.0], size=n)
        A = (Q * w).dot(Q.conj().T)
    elif kind == 'cluster':
        w = np.where(r.rand(n) < 0.5, -1.0, 1.0) + 1e-3 * r.randn(n)
        A = (Q * w).dot(Q.conj().T)
    elif kind == 'block':
        k = n // 2
        A[:k, k:] = 0
        A[k:, :k] = 0
    elif kind == 'diag':
        A = np.diag(np.diag(A).real).astype(A.dtype)
    elif kind == 'rank1':
        A = np.outer(Q[:, 0], Q[:, 0].conj()) * 1.5
    elif kind == 'shifted':
        A = A + 10 * np.eye(n)
    A = (A + A.conj().T) / 2
    return A / max(np.linalg.norm(A, 2), 1e-30) * scale * 2


def mk_vec(A, kind, cp, s):
    n = A.shape[0]
    r = q.rng('v', s)
    cp = cp or np.iscomplexobj(A)
    v = q.gauss(r, (n,), cp)
    w, U = np.linalg.eigh(A)
    if kind == 'eig':
        v = U[:, r.randint(n)] * (1.0 if r.rand() < 0.5 else 2.3)
    elif kind == 'sub':
        v = U[:, r.permutation(n)[:max(1, n // 2)]].dot(q.gauss(r, (max(1, n // 2),), cp))
    elif kind == 'unit':
        v = np.zeros(n)
        v[r.randint(n)] = 1.0
    return v.astype(complex) if cp else v.real


def krylov_low(A, v):
    """distinct eigenvalues of A seen by v"""
    w, U = np.linalg.eigh(A)
    c = U.conj().T.dot(v)
    out = []
    i = 0
    n = len(w)
    while i < n:
        j = i
        while j + 1 < n and w[j + 1] - w[i] < 1e-7 * max(1, abs(w[i])):
            j += 1
        out.append((np.mean(w[i:j + 1]), np.linalg.norm(c[i:j + 1]) / np.linalg.norm(v)))
        i = j + 1
    return out


# ---------------------------------------------------------------- Lanczos eigenpairs
def s_eig(st):
    return st.tuples(op(st), st.sampled_from(VK), st.booleans().map(int), gen.seeds(st), st.integers(1, 4), st.sampled_from([1, 2, 3, 5]), st.booleans().map(int), st.sampled_from([0.0, 1e-10])).map(list)


def r_eig(case):
    oc, vk, cp, s, numeig, Ndiag, re, dE = case
    A = mk_op(oc)
    v = mk_vec(A, vk, cp, s)
    n = len(v)
    v0 = v.copy()
    if not re:
        numeig = 1
    seen = [x for x in krylov_low(A, v)]
    vis = [w for w, c in seen if c > 1e-6]
    unsure = any(1e-13 < c <= 1e-3 for w, c in seen)
    gaps = np.diff([w for w, c in seen])
    nmax = 300
    lan = LZ.LanczosEngine(lambda x: A.dot(x), np.dot, np.zeros, Ndiag, max(nmax, numeig), numeig, 1e-8, dE)
    e, vs, conv = lan.__simulate__(v, reortho=bool(re))
    need(np.array_equal(v, v0), 'Lanczos changed the start vector')
    nA = np.linalg.norm(A, 2)
    e = np.array(e)
    need(len(e) == len(vs) and 1 <= len(e) <= numeig, 'Lanczos returned {} values and {} vectors for numeig={}', len(e), len(vs), numeig)
    need(np.all(np.diff(e) >= -1e-12), 'Lanczos eigenvalues are not ascending: {}', e)
    ghosts = not re and len(lan._vecs) > n    # plain Lanczos that went on beyond the dimension: the combination for a ghost value may cancel
    for k in range(0 if ghosts else len(e)):
        x = vs[k]
        need(abs(np.linalg.norm(x) - 1) < 1e-8, 'Lanczos vector {} has norm {}', k, np.linalg.norm(x))
        need(abs(np.vdot(x, A.dot(x)) - e[k]) < 1e-6 * nA, 'Lanczos value {} but <v|A|v>={}', e[k], np.vdot(x, A.dot(x)))
    if unsure or (len(gaps) and min(gaps) < 1e-2 * nA):
        return False, 'unsure'
    m = min(len(e), len(vis))
    if dE == 0.0 or m == 1:
        need(abs(e[0] - vis[0]) < 1e-6 * nA, 'lowest Lanczos value {} instead of {}', e[0], vis[0])
    if dE == 0.0 and re:
        need(len(e) >= min(numeig, len(vis)), 'Lanczos returned {} values, the start vector sees {} and {} were requested', len(e), len(vis), numeig)
        need(np.allclose(e[:m], vis[:m], atol=1e-6 * nA), 'Lanczos values {} instead of {}', e[:m], vis[:m])
        for k in range(m):
            r = np.linalg.norm(A.dot(vs[k]) - e[k] * vs[k])
            need(r < 1e-5 * nA, 'Lanczos pair {} has residual {}', k, r)
    return n > 2 and len(vis) > 1 and oc[1] != 'diag', 'breakdown' if len(vis) < n else 'full'


# ---------------------------------------------------------------- convergence of all requested pairs
def s_conv(st):
    return st.tuples(st.integers(20, 60), st.sampled_from(['outlier', 'two', 'flat', 'gauss']), st.integers(1, 4), st.sampled_from([1, 2, 4]), st.sampled_from([1e-8, 1e-10]), st.sampled_from([5, 10, 300, 300, 300]),
                     st.booleans().map(int), gen.seeds(st), st.sampled_from([1.0, 0.1, 10.0])).map(list)


def r_conv(case):
    n, kind, numeig, Ndiag, dE, ncv, cp, s, scale = case
    r = q.rng('conv', s)
    Q, _ = np.linalg.qr(q.gauss(r, (n, n), cp))
    w = {'outlier': np.concatenate([[-20.], np.linspace(0, 5, n - 1)]), 'two': np.concatenate([[-20., -19.], np.linspace(0, 5, n - 2)]), 'flat': np.linspace(-1, 1, n),
         'gauss': np.sort(r.randn(n))}[kind]
    w = np.sort(w) * scale
    A = (Q * w).dot(Q.conj().T)
    v = q.gauss(r, (n,), cp)
    seen = abs(Q.conj().T.dot(v))[:numeig]
    if min(seen) < 0.05 or min(np.diff(w[:numeig + 1])) < 1e-3 * scale:
        raise Skip('start vector nearly orthogonal to a low eigenvector, or nearly degenerate')
    lan = LZ.LanczosEngine(lambda x: A.dot(x), np.dot, np.zeros, Ndiag, ncv, numeig, 1e-10, dE * scale)
    e, vs, conv = lan.__simulate__(v, reortho=True)
    need(len(e) == numeig == len(vs), '{} pairs instead of {}', len(e), numeig)
    need(conv or len(lan._vecs) > ncv, 'not converged although only {} of {} steps were done', len(lan._vecs), ncv)
    nA = np.linalg.norm(A, 2)
    if conv:
        need(np.allclose(e, w[:numeig], atol=1e-5 * nA, rtol=0), '{} pairs reported as converged (deltaEta={}, Ndiag={}): values {} instead of {}', numeig, dE * scale, Ndiag, e, w[:numeig])
        for k in range(numeig):
            res = np.linalg.norm(A.dot(vs[k]) - e[k] * vs[k])
            need(res < 0.05 * nA, 'pair {} reported as converged has residual {}', k, res)
    else:
        need(all(e >= w[:numeig] - 1e-9 * nA), 'Ritz values {} below the exact {}', e, w[:numeig])
    return bool(conv) and numeig > 1, 'converged' if conv else 'cut'


# ---------------------------------------------------------------- Lanczos time steps
def times(st):
    r = st.sampled_from([0.1, -0.1, 0.5, 1.0, 1e-3, 0.0])
    return st.one_of(r.map(lambda x: [0.0, x]), r.map(lambda x: [x, 0.0]), st.tuples(r, r).map(list))


def s_time(st):
    return st.tuples(op(st), st.sampled_from(VK), st.booleans().map(int), gen.seeds(st), st.integers(1, 16), times(st)).map(list)


def dt_of(t):
    return float(t[0]) if t[1] == 0 else complex(t[0], t[1])


def r_time(case):
    oc, vk, cp, s, ncv, t = case
    A = mk_op(oc)
    v = mk_vec(A, vk, cp, s)
    if vk != 'eig' and not cp and np.iscomplexobj(v) and s % 3 == 0:
        v = v.real                       # real vector, complex operator
    if np.linalg.norm(v) < 1e-8:
        raise Skip('zero vector')
    dt = dt_of(t)
    nv = np.linalg.norm(v)
    v0 = v.copy()
    te = LZ.LanczosTimeEvolution(lambda x: A.dot(x), np.dot, np.zeros, ncv=ncv, delta=1e-10)
    y = te.__doStep__(v, dt)
    need(np.array_equal(v, v0), 'the time step changed the start vector')
    ref = expm(dt * A).dot(v)
    x = np.linalg.norm(A, 2) * abs(dt)
    amp = np.exp(x) if t[0] != 0 else 1.0
    n = len(v)
    if ncv >= n:
        bound = 0.0
    else:
        bound = 4 * amp
        for k in range(1, ncv + 1):
            bound *= x / k
    err = np.linalg.norm(y - ref)
    err /= nv
    need(err < 2 * bound + 1e-7 * amp, 'Lanczos step with {} vectors, dimension {}, dt={}: error {:.3e}, allowed {:.1e}; got norm {} expected {}', ncv, n, dt, err, 2 * bound + 1e-7 * amp,
         np.linalg.norm(y), np.linalg.norm(ref))
    return n > 2 and ncv > 1 and bound < 0.1 and vk != 'eig' and x > 1e-3, 'exact' if ncv >= n else 'truncated'


# ---------------------------------------------------------------- gexpmv
def s_exp(st):
    return st.tuples(op(st, 30), st.sampled_from(VK), st.booleans().map(int), gen.seeds(st), st.sampled_from([None, None, 2, 5, 10, 25]), st.sampled_from([0.1, -0.1, 1.0, -1.0, 3.0, 0.0, 1e-3]),
                     st.sampled_from(['herm', 'iherm', 'gen']), st.sampled_from([0.0, 0.0, 1e-10, 1e-6]), st.booleans().map(int)).map(list)


def r_exp(case):
    oc, vk, cp, s, m, t, kind, tol, lin = case
    A = mk_op(oc)
    v = mk_vec(A, vk, cp, s)
    if kind == 'iherm':
        A = 1j * A
    elif kind == 'gen':
        A = A + np.triu(q.gauss(q.rng('g', s), A.shape, np.iscomplexobj(A))) * 0.3
    n = len(v)
    if n < 2:
        m = None
    if m is not None:
        m = min(m, n)
    if np.iscomplexobj(A):
        v = v.astype(complex)
    elif np.iscomplexobj(v):
        v = v.real
        if np.linalg.norm(v) < 1e-8:
            raise Skip('zero vector')
    nA = np.linalg.norm(A, 2)
    if m is not None and m < 5:         # a second-order method: keep the number of steps it needs affordable
        tol = 1e-6
        if nA * abs(t) > 2:
            t = 2 * np.sign(t) / nA
    op = A
    if lin:
        from scipy.sparse.linalg import aslinearoperator
        op = aslinearoperator(A)
    v0 = v.copy()
    w, conv, nstep, brk, mb = SX.gexpmv(op, v, t, anorm=max(nA, 1e-3) if s % 2 else 1.0, m=m, tol=tol, mxstep=20000 if m is not None else 500)
    need(np.array_equal(v, v0), 'gexpmv changed its input')
    ref = expm(t * A).dot(v)
    need(conv, 'gexpmv did not converge in {} steps', nstep)
    amp = np.exp(nA * abs(t)) if kind != 'iherm' else 1.0
    err = np.linalg.norm(w - ref)
    eff = max(tol, 1.5e-8)
    need(err < 30 * eff * (nstep + 1) * amp * max(1, np.linalg.norm(v)) * max(1, abs(t)) + 1e-9, 'gexpmv m={} t={} tol={}: error {:.2e}, |v|={}', m, t, tol, err, np.linalg.norm(ref))
    return n > 2 and nA * abs(t) > 1e-2 and vk != 'eig', kind


# ---------------------------------------------------------------- the local problems of the tensor network
def s_loc(st):
    return st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 3), st.integers(1, 3), st.booleans().map(int), st.booleans().map(int), gen.seeds(st), st.integers(1, 3), times(st),
                     st.sampled_from([4, 10, 40])).map(list)


def r_loc(case):
    Dl, Dr, d, M, c, cv, s, nret, t, ncv = case
    r = q.rng('loc', s)
    mf = L.mf
    hm = lambda n: q.rand_op(r, n, c, 'herm')
    Le = np.stack([hm(Dl) for _ in range(M)], axis=2)
    Re = np.stack([hm(Dr) for _ in range(M)], axis=2)
    Rb = np.stack([hm(Dl) for _ in range(M)], axis=2)
    W = np.array([[hm(d) for _ in range(M)] for _ in range(M)]).reshape(M, M, d, d)
    n = Dl * Dr * d
    cx = c or cv
    A0 = q.gauss(r, (Dl, Dr, d), cx)
    K0 = q.gauss(r, (Dl, Dl), cx)
    H = np.einsum('abm,mnij,xyn->byjaxi', Le, W, Re).transpose(0, 1, 2, 3, 4, 5).reshape(n, n)
    # out indices (b,y,j), in indices (a,x,i)
    HB = np.einsum('abm,xym->byax', Le, Rb).reshape(Dl * Dl, Dl * Dl)
    nh, nb = max(np.linalg.norm(H, 2), 1e-12), max(np.linalg.norm(HB, 2), 1e-12)
    w = np.linalg.eigvalsh(H)
    wb = np.linalg.eigvalsh(HB)
    keep = [x.copy() for x in (Le, Re, W, A0, K0)]
    tag = 'large' if n > 6 else 'small'
    if n >= 2:
        nv = min(nret, max(1, n - 2))
        try:
            res = mf.eigsh(Le, W, Re, A0, 1e-10, nv, max(ncv, 2 * nv + 2), nv)
        except ArpackError:
            res = None
        check_pairs(res, nv, H, w, nh, A0.shape, 'eigsh')
        res = mf.lanczos(Le, W, Re, A0, 1e-10, 3, 300, 1, 1e-8, 1e-12)
        check_pairs(res, 1, H, w, nh, A0.shape, 'lanczos')
        if n >= 6:
            res = mf.lobpcg(Le, W, Re, A0, 1e-8, 1)
            check_pairs(res, 1, H, w, nh, A0.shape, 'lobpcg', loose=True)
            if nret > 1 and n > 5 * nret:
                res = mf.lobpcg(Le, W, Re, A0, 1e-8, nret)
                check_pairs(res, nret, H, w, nh, A0.shape, 'lobpcg', loose=True)
    # zero-site problem: one more site attached
    A1 = q.gauss(r, (Dl, Dr, d), c)
    Rz = Re
    Kz = q.gauss(r, (Dr, Dr), cx)
    Lz = mf.addLayer(Le, A1, W, A1, 1)
    HZ = np.einsum('abm,xym->byax', Lz, Rz).reshape(Dr * Dr, Dr * Dr)
    wz = np.linalg.eigvalsh(HZ)
    nz = max(np.linalg.norm(HZ, 2), 1e-12)
    if Dr * Dr >= 4:
        nv = min(nret, Dr * Dr - 2)
        try:
            res = mf.eigshbond(Le, W, A1, Rz, Kz, 'right', 1e-10, nv, max(ncv, 2 * nv + 2), nv)
        except ArpackError:
            res = None
        check_pairs(res, nv, HZ, wz, nz, Kz.shape, 'eigshbond')
        res = mf.lanczosbond(Le, W, A1, Rz, Kz, 'right', 3, 300, 1, 1e-10, 1e-12)
        check_pairs(res, 1, HZ, wz, nz, Kz.shape, 'lanczosbond')
    # time evolution of the local tensors
    dt = dt_of(t)
    # keep ||H dt|| moderate
    Ht, Hbt = H * dt / max(1.0, nh / 2), HB * dt / max(1.0, nb / 2)
    Wt, Lt = W / max(1.0, nh / 2), Le / max(1.0, nb / 2)
    ref = expm(Ht).dot(A0.ravel()).reshape(A0.shape)
    refb = expm(Hbt).dot(K0.ravel()).reshape(K0.shape)
    amp = np.exp(2 * abs(dt)) * np.linalg.norm(A0)
    ampb = np.exp(2 * abs(dt)) * np.linalg.norm(K0)
    q.need_close(mf.evolveTensorLan(Le, Wt, Re, A0, dt, krylov_dimension=min(n, 20) + 1), ref, 'evolveTensorLan dt=%s' % dt, tol=1e-6, scale=amp)
    q.need_close(mf.evolveMatrixLan(Lt, Rb, K0, dt, krylov_dimension=min(Dl * Dl, 20) + 1), refb, 'evolveMatrixLan dt=%s' % dt, tol=1e-6, scale=ampb)
    q.need_close(mf.evolveTensorSexpmv(Le, Wt, Re, A0, dt), ref, 'evolveTensorSexpmv dt=%s' % dt, tol=1e-6, scale=amp)
    q.need_close(mf.evolveMatrixSexpmv(Lt, Rb, K0, dt), refb, 'evolveMatrixSexpmv dt=%s' % dt, tol=1e-6, scale=ampb)
    tau = float(t[1] or t[0])
    ref = expm(-1j * tau * H / max(1.0, nh / 2)).dot(A0.ravel()).reshape(A0.shape)
    refb = expm(-1j * tau * HB / max(1.0, nb / 2)).dot(K0.ravel()).reshape(K0.shape)
    for meth in ['RK45', 'RK23', 'Radau', 'BDF'][s % 4:s % 4 + 1]:
        rt = 1e-8 if meth in ('RK45', 'Radau') else 1e-7
        q.need_close(mf.evolveTensorsolve_ivp(Le, Wt, Re, A0, tau, method=meth, rtol=rt, atol=1e-10), ref, 'evolveTensorsolve_ivp %s' % meth, tol=1e-4, scale=amp)
        q.need_close(mf.evolveMatrixsolve_ivp(Lt, Rb, K0, tau, method=meth, rtol=rt, atol=1e-10), refb, 'evolveMatrixsolve_ivp %s' % meth, tol=1e-4, scale=ampb)
    for a, b, nm in zip(keep, (Le, Re, W, A0, K0), ('L', 'R', 'mpo', 'tensor', 'matrix')):
        need(np.array_equal(a, b), 'a local solver changed its input {}', nm)
    return n > 3 and M > 1 and Dl > 1, tag


def check_pairs(res, nv, H, w, nh, shape, name, loose=False):
    if res is None:
        return
    e, v = res
    if nv == 1:
        e, v = [e], [v]
    need(len(e) == nv and len(v) == nv, '{}: {} values and {} vectors for {} requested', name, len(e), len(v), nv)
    for k in range(nv):
        x = v[k]
        need(x.shape == tuple(shape), '{}: vector of shape {} for a tensor of shape {}', name, x.shape, shape)
        x = x.ravel()
        need(abs(np.linalg.norm(x) - 1) < 1e-6, '{}: vector norm {}', name, np.linalg.norm(x))
        ray = np.vdot(x, H.dot(x))
        need(abs(ray - e[k]) < 1e-6 * nh, '{}: value {} but <v|H|v>={}', name, e[k], ray)
        need(e[k] >= w[0] - 1e-9 * nh, '{}: value {} below the spectrum {}', name, e[k], w[0])
        if not loose:
            need(abs(e[k] - w[k]) < 1e-5 * nh, '{}: eigenvalue {} is {} instead of {}', name, k, e[k], w[k])


FACETS = [
    Facet('lanczos', s_eig, r_eig, 800, rule='start vector sees several eigenvalues of a non-diagonal matrix'),
    Facet('converge', s_conv, r_conv, 400, rule='several pairs reported as converged'),
    Facet('timestep', s_time, r_time, 800, rule='several Krylov vectors, non-trivial step'),
    Facet('gexpmv', s_exp, r_exp, 400, rule='dimension above 2, norm of A*t above 0.01'),
    Facet('local', s_loc, r_loc, 400, rule='problem size above 3 with operator bond above 1'),
]
