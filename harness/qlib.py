"""Worker side: builders and dense oracles (PyPy, numpy).  The library itself is imported lazily."""
import os, sys, math, itertools
import numpy as np
from spec import Violation, Skip, need

TOL = 1e-9


def lib():
    """modules of the code under test"""
    class L:
        pass
    import lib.mpslib.mps as mpslib
    import lib.mpslib.mpsfunctions as mf
    L.MPS = mpslib.MPS
    L.mpslib = mpslib
    L.mf = mf
    return L


def rng(*key):
    import hashlib
    return np.random.RandomState(int(hashlib.sha256(repr(key).encode()).hexdigest()[:8], 16))


def gauss(r, shape, c):
    a = r.randn(*shape)
    if c:
        a = a + 1j * r.randn(*shape)
    return a


def num(z):
    return complex(z[0], z[1]) if isinstance(z, (list, tuple)) else z


# ------------------------------------------------------------------------------------------------ states
def tensors_of(case, salt=0):
    """list of (Dl,Dr,d) arrays described by a gen.state case"""
    d, D, k, c = case['d'], case['D'], case['k'], case['c']
    r = rng('t', case['s'], salt)
    n = len(d)
    b = [1] + list(D) + [1]
    if k == 'ghz':
        m = min(d)
        out = []
        ph = [np.exp(1j * x) if c else np.sign(x - 3.0) for x in r.uniform(0, 6.2, size=n)]
        for i in range(n):
            t = np.zeros((1 if i == 0 else m, 1 if i == n - 1 else m, d[i]), dtype=complex if c else float)
            for s in range(m):
                t[0 if i == 0 else s, 0 if i == n - 1 else s, s] = ph[i]
            out.append(t)
        return out
    out = []
    for i in range(n):
        shape = (b[i], b[i + 1], d[i])
        if k in ('rand', 'prod'):
            t = gauss(r, shape, c)
        elif k == 'low':        # rank one in the middle of (some) bonds
            t = gauss(r, shape, c)
            if r.rand() < 0.7:
                u = gauss(r, (b[i + 1], 1), c)
                v = gauss(r, (1, b[i + 1]), c)
                t = np.transpose(np.tensordot(t, u.dot(v), ([1], [0])), (0, 2, 1))
        elif k == 'sparse':
            t = gauss(r, shape, c) * (r.rand(*shape) < 0.5)
        elif k == 'decay':
            t = gauss(r, shape, c) * (10.0 ** (-0.7 * np.arange(b[i + 1])))[None, :, None]
        elif k == 'int':
            t = r.randint(-1, 2, size=shape).astype(float)
            if c:
                t = t + 1j * r.randint(-1, 2, size=shape)
        else:
            raise ValueError(k)
        if c:
            t = t.astype(complex)
        out.append(t)
    return out


def contract(tensors, mat=None, pos=None):
    """dense contraction of a chain with a matrix on bond pos: array (Dl, d0, ..., dN-1, Dr)"""
    n = len(tensors)
    res = np.eye(tensors[0].shape[0]) if pos != 0 or mat is None else np.array(mat)
    for i in range(n):
        res = np.tensordot(res, tensors[i], ([res.ndim - 1], [0]))     # ..., Dr, d
        res = np.swapaxes(res, -1, -2)
        if mat is not None and pos == i + 1:
            res = np.tensordot(res, mat, ([res.ndim - 1], [0]))
    return res


def vec(mps):
    """dense state of an MPS object with its norm factor; boundary legs are kept for non-open chains"""
    x = contract(mps._tensors, mps._mat, mps._position)
    if x.shape[0] == 1 and x.shape[-1] == 1:
        x = x[0, ..., 0]
    return x * mps._Z


def vec_list(tensors):
    x = contract(tensors)
    if x.shape[0] == 1 and x.shape[-1] == 1:
        x = x[0, ..., 0]
    return x


def mk(case, salt=0, sweep=True):
    """an MPS object for the case, in canonical form (unless sweep is off), centre moved as the case says, and its vector"""
    L = lib()
    ts = tensors_of(case, salt)
    v = vec_list(ts)
    nrm = np.linalg.norm(v)
    scale = np.prod([np.linalg.norm(t) for t in ts])
    if not nrm > 1e-6 * max(scale, 1e-30):
        raise Skip('zero state')
    ts = [t / max(np.linalg.norm(t), 1e-30) for t in ts]
    m = L.MPS(ts)
    m._Z = 1.0
    if sweep:
        m.position(0)
        if not case.get('h'):
            m.position(len(ts))
        m._Z = 1.0
    for p in case.get('mv', []):
        m.position(p)
    m._Z = m._Z * num(case.get('z', 1.0))
    return m


def is_left(t):
    return np.linalg.norm(np.tensordot(t.conj(), t, ([0, 2], [0, 2])) - np.eye(t.shape[1]))


def is_right(t):
    return np.linalg.norm(np.tensordot(t.conj(), t, ([1, 2], [1, 2])) - np.eye(t.shape[0]))


def check_canonical(m, what='', tol=1e-8):
    for n in range(len(m)):
        r = is_left(m._tensors[n]) if n < m._position else is_right(m._tensors[n])
        need(r < tol, '{}: site {} is not {}-orthonormal (centre bond {}): residual {:.2e}', what, n,
             'left' if n < m._position else 'right', m._position, r)
    need(abs(np.linalg.norm(m._mat) - 1) < tol, '{}: bond matrix has norm {}', what, np.linalg.norm(m._mat))


def check_shapes(m, d, what=''):
    ts = m._tensors
    need(len(ts) == len(d) and len(m) == len(d), '{}: number of tensors changed to {}', what, len(ts))
    need([t.shape[2] for t in ts] == list(d), '{}: local dimensions changed to {}', what, [t.shape for t in ts])
    for n in range(len(ts) - 1):
        l, r = ts[n].shape[1], ts[n + 1].shape[0]
        if m._position == n + 1:
            need(m._mat.shape == (l, r), '{}: bond matrix {} does not fit bonds {} {}', what, m._mat.shape, l, r)
        else:
            need(l == r, '{}: bond {} does not match: {} {}', what, n + 1, l, r)


def bonds(m):
    """bond dimensions; at the centre bond the matrix may be rectangular, then the larger side"""
    ts = m._tensors
    b = [ts[0].shape[0]] + [max(ts[i].shape[1], ts[i + 1].shape[0]) for i in range(len(ts) - 1)] + [ts[-1].shape[1]]
    b[m._position] = max(b[m._position], *m._mat.shape)
    return b


def close(a, b, tol=TOL, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    s = scale if scale is not None else max(np.linalg.norm(a), np.linalg.norm(b), 1e-12)
    r = np.linalg.norm(a - b)
    return bool(r <= tol * s)


def need_close(a, b, what, tol=TOL, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, '{}: shape {} instead of {}', what, a.shape, b.shape)
    s = scale if scale is not None else max(np.linalg.norm(a), np.linalg.norm(b), 1e-12)
    r = np.linalg.norm(a - b)
    need(r <= tol * s, '{}: deviation {:.3e} (scale {:.3e}); got {} expected {}', what, r, s,
         np.array2string(a.ravel()[:4], precision=6), np.array2string(b.ravel()[:4], precision=6))


# ------------------------------------------------------------------------------------------------ operators
def rand_op(r, d, c, kind='gen'):
    a = gauss(r, (d, d), c)
    if kind == 'herm':
        a = a + a.conj().T
    elif kind == 'unitary':
        a, _ = np.linalg.qr(a + 0.1 * np.eye(d))
    elif kind == 'diag':
        a = np.diag(np.diag(a))
    elif kind == 'nilp':
        a = np.triu(a, 1)
    return a


def apply1(x, op, site):
    """op[in,out] on axis site"""
    y = np.tensordot(x, op, ([site], [0]))
    return np.moveaxis(y, -1, site)


def apply2(x, gate, site):
    """gate[in1,in2,out1,out2] on axes site, site+1"""
    y = np.tensordot(x, gate, ([site, site + 1], [0, 1]))
    return np.moveaxis(y, [-2, -1], [site, site + 1])


def expect(x, ops):
    """<x| prod_i op_i |x> with ops = list of (site, op[ket,bra]) acting one after the other"""
    y = x
    for s, o in ops:
        y = apply1(y, o, s)
    return np.sum(y * x.conj())


def schmidt(x, bond):
    d = int(np.prod(x.shape[:bond]))
    s = np.linalg.svd(x.reshape(d, -1), compute_uv=False)
    return s / np.linalg.norm(s)


def mpo_dense(ts, full=False):
    """dense operator of MPO tensors (Ml,Mr,din,dout): matrix [in,out]; open ends have bond 1"""
    res = ts[0]                                # Ml Mr i o
    for t in ts[1:]:
        a, _, i1, o1 = res.shape
        res = np.tensordot(res, t, ([1], [0]))  # a i1 o1 b i2 o2
        res = np.transpose(res, (0, 3, 1, 4, 2, 5))
        res = res.reshape(a, t.shape[1], i1 * t.shape[2], o1 * t.shape[3])
    return res if full else res[0, 0]


def rand_mpo(r, d, M, c, herm=False):
    """list of MPO tensors with open ends; d list, M inner bonds"""
    b = [1] + list(M) + [1]
    return [gauss(r, (b[i], b[i + 1], d[i], d[i]), c) for i in range(len(d))]


def mk_long(case, salt=0):
    """like mk, for chains whose dense vector is too large"""
    L = lib()
    ts = [t / max(np.linalg.norm(t), 1e-30) for t in tensors_of(case, salt)]
    nn = transfer_overlap(ts, ts)
    if not abs(nn) > 1e-20:
        raise Skip('zero state')
    m = L.MPS(ts)
    m._Z = 1.0
    m.position(0)
    m.position(len(ts))
    m._Z = 1.0
    for p in case.get('mv', []):
        m.position(p)
    m._Z = m._Z * num(case.get('z', 1.0))
    return m


def transfer_overlap(a, b):
    """sum a conj(b) for two lists of tensors with trivial ends, written with einsum"""
    e = np.ones((1, 1))
    for x, y in zip(a, b):
        e = np.einsum('ab,acs,bds->cd', e, x, y.conj(), optimize=True)
    return e[0, 0]
