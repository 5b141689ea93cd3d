"""Worker side: textbook Hamiltonians written with Kronecker products, independent of the library."""
import numpy as np
import itertools

SX = np.array([[0., 1.], [1., 0.]])
SY = np.array([[0., -1j], [1j, 0.]])
SZ = np.diag([-1., 1.])         # the library labels the first basis state 'down'
ID = np.eye(2)
CF = np.array([[0., 1.], [0., 0.]])
PF = np.diag([1., -1.])


def at(ops, d):
    """product operator: {site: matrix} on a chain with local dimensions d"""
    res = np.eye(1)
    for n, dn in enumerate(d):
        res = np.kron(res, ops.get(n, np.eye(dn)))
    return res


def chain(d, bond, site):
    """sum_n bond(n) (list of (A,B)) on n,n+1 plus sum_n site(n)"""
    N = len(d)
    D = int(np.prod(d))
    H = np.zeros((D, D), dtype=complex)
    for n in range(N - 1):
        for A, B in bond(n):
            H += at({n: A, n + 1: B}, d)
    for n in range(N):
        H += at({n: site(n)}, d)
    return H


def tfi_terms(Jx, Bz):
    return 2, lambda n: [(Jx[n] * SX, SX)], lambda n: Bz[n] * SZ


def tfi2_terms(Jz, Bx):
    return 2, lambda n: [(Jz[n] * SZ, SZ)], lambda n: Bx[n] * SX


def xxz_terms(Jz, Jxy, Bz):
    return 2, (lambda n: [(Jxy[n] * SX / 2, SX / 2), (Jxy[n] * SY / 2, SY / 2), (Jz[n] * SZ / 2, SZ / 2)]), \
        lambda n: Bz[n] * SZ / 2


def xxzflipped_terms(Delta, J):
    """J(sx sx - sy sy) - Delta J sz sz"""
    return 2, (lambda n: [(J[n] * SX, SX), (-J[n] * SY, SY), (-Delta[n] * J[n] * SZ, SZ)]), lambda n: np.zeros((2, 2))


def jess_terms(J, w, chi):
    z = np.diag([1., -1.])
    k = np.kron
    pair = [k(a, ID) for a in (SX, SY, z)] + [k(ID, a) for a in (SX, SY, z)]
    return 4, (lambda n: [(J[n] * p, p) for p in pair]), \
        lambda n: w[n] * (k(SX, ID) + k(ID, SX)) + chi[n] * k(SX, SX)


def modes(n):
    """annihilation operators of n fermionic modes (Jordan-Wigner)"""
    out = []
    for i in range(n):
        m = np.eye(1)
        for j in range(n):
            m = np.kron(m, PF if j < i else (CF if j == i else ID))
        out.append(m)
    return out


def fermions(V, t, mu):
    N = len(mu)
    c = modes(N)
    cd = [x.T for x in c]
    nn = [a.dot(b) for a, b in zip(cd, c)]
    H = np.zeros(c[0].shape)
    for i in range(N):
        H = H + mu[i] * nn[i]
        if i < N - 1:
            H = H - t[i] * (cd[i].dot(c[i + 1]) + cd[i + 1].dot(c[i])) + V[i] * nn[i].dot(nn[i + 1])
    return H


def hubbard(U, tu, td, mu, md):
    N = len(U)
    c = modes(2 * N)
    H = np.zeros(c[0].shape)
    num = lambda a: a.T.dot(a)
    for i in range(N):
        dn, up = c[2 * i], c[2 * i + 1]
        H = H + mu[i] * num(up) + md[i] * num(dn) + U[i] * num(up).dot(num(dn))
        if i < N - 1:
            d2, u2 = c[2 * i + 2], c[2 * i + 3]
            H = H - tu[i] * (up.T.dot(u2) + u2.T.dot(up)) - td[i] * (dn.T.dot(d2) + d2.T.dot(dn))
    return H


def boson(d):
    return np.diag(np.sqrt(np.arange(1., d)), 1)


# models in one table: name -> (local dimension, number of coupling lists: 'b' per bond, 's' per site)
TABLE = {
    'TFI': (2, 'bs'), 'TFI_2': (2, 'bs'), 'XXZ': (2, 'bbs'), 'XXZflipped': (2, 'bb'), 'JessHamiltonian': (4, 'bss'),
    'SpinlessFermions': (2, 'bbs'), 'HubbardChain': (4, 'sbbss'),
}
TERMS = {'TFI': tfi_terms, 'TFI_2': tfi2_terms, 'XXZ': xxz_terms, 'XXZflipped': xxzflipped_terms,
         'JessHamiltonian': jess_terms}


def dense(name, par):
    if name == 'SpinlessFermions':
        return fermions(*par)
    if name == 'HubbardChain':
        return hubbard(*par)
    d, b, s = TERMS[name](*par)
    i = TABLE[name][1].find('s')
    N = len(par[i]) if i >= 0 else len(par[0]) + 1
    return chain([d] * N, b, s)


def build(Hm, name, par, obc=True, dtype=None):
    """the library's operator"""
    kw = {} if dtype is None else {'dtype': dtype}
    par = [np.array(p, dtype=float) for p in par]
    if name in ('SpinlessFermions', 'HubbardChain'):
        return getattr(Hm, name)(*(par + [obc]), **kw)
    return getattr(Hm, name)(*par, obc=obc, **kw)


def open_ends(tensors):
    ts = [np.array(t) for t in tensors]
    ts[0] = ts[0][-1:, :, :, :]
    ts[-1] = ts[-1][:, :1, :, :]
    return ts
