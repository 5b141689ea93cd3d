"""C08: tensor decompositions reconstruct their input with the promised structure."""
from spec import Facet, need, Skip
import gen

RULE = 'Non-trivial: the decomposed tensor has more than one row and column.'
ASSUMPTIONS = ['phase fixing is specified for diagonal entries that do not vanish']


def load():
    global q, np, L
    import numpy as np
    import qlib as q
    L = q.lib()


KT = ['rand', 'rand', 'zerocol', 'rank1', 'int', 'decay', 'iso', 'tiny', 'huge', 'neg']


def s_tensor(st):
    return st.tuples(st.integers(1, 6), st.integers(1, 6), st.integers(1, 4), st.booleans().map(int), st.sampled_from(KT), gen.seeds(st)).map(list)


def tensor(t):
    l, r_, d, c, k, s = t
    r = q.rng('T', s)
    a = q.gauss(r, (l, r_, d), c)
    if k == 'zerocol':
        a[:, r.randint(0, r_), :] = 0
        a[r.randint(0, l), :, :] = 0
    elif k == 'rank1':
        a = np.einsum('a,b,c->abc', a[:, 0, 0], q.gauss(r, (r_,), c), q.gauss(r, (d,), c))
    elif k == 'int':
        a = np.round(2 * a)
    elif k == 'decay':
        a = a * (10.0 ** (-np.arange(r_)))[None, :, None]
    elif k == 'iso':
        m = a.transpose(2, 0, 1).reshape(d * l, r_)
        qq, _ = np.linalg.qr(m)
        a = qq.reshape(d, l, qq.shape[1]).transpose(1, 2, 0)
    elif k == 'tiny':
        a = a * 1e-7
    elif k == 'huge':
        a = a * 1e6
    elif k == 'neg':
        a = -np.abs(a)
    if np.linalg.norm(a) < 1e-12:
        raise Skip('zero tensor')
    return a


def lmul(m, t):
    return np.tensordot(m, t, ([1], [0]))


def rmul(t, m):
    return np.transpose(np.tensordot(t, m, ([1], [0])), (0, 2, 1))


def s_qr(st):
    return st.tuples(s_tensor(st), st.sampled_from([1, -1, 2, -3]), st.sampled_from([None, 'q', 'r'])).map(list)


def r_qr(case):
    t, dr, fp = case
    a = tensor(t)
    a0 = a.copy()
    out, r, Z = L.mf.prepareTensor(a, dr, fixphase=fp) if fp else L.mf.prepareTensor(a, dr)
    need(np.array_equal(a, a0), 'prepareTensor changed its argument')
    need(abs(np.linalg.norm(r) - 1) < 1e-10, 'r has norm {}', np.linalg.norm(r))
    need(np.imag(Z) == 0 and Z > 0 and abs(Z - np.linalg.norm(a)) < 1e-9 * np.linalg.norm(a), 'Z is {} but the tensor has norm {}', Z, np.linalg.norm(a))
    l, rr, d = a.shape
    if dr > 0:
        k = min(l * d, rr)
        need(out.shape == (l, k, d) and r.shape == (k, rr), 'shapes {} {}', out.shape, r.shape)
        q.need_close(rmul(out, r) * Z, a, 'out*r*Z', tol=1e-10)
        need(q.is_left(out) < 1e-9, 'not left-isometric')
        need(np.linalg.norm(np.tril(r, -1)) < 1e-10, 'r is not upper triangular')
        Q, R = out.transpose(2, 0, 1).reshape(d * l, k), r
    else:
        k = min(rr * d, l)
        need(out.shape == (k, rr, d) and r.shape == (l, k), 'shapes {} {}', out.shape, r.shape)
        q.need_close(lmul(r, out) * Z, a, 'r*out*Z', tol=1e-10)
        need(q.is_right(out) < 1e-9, 'not right-isometric')
        need(np.linalg.norm(np.triu(r, 1)) < 1e-10, 'r is not lower triangular')
        Q, R = None, r
    if fp == 'r' or (fp == 'q' and Q is not None):
        dg = np.diag(R if fp == 'r' else Q)
        big = np.abs(dg) > 1e-8
        need(np.all(np.abs(np.imag(dg[big])) < 1e-8) and np.all(np.real(dg[big]) > 0), 'fixphase={}: diagonal {}', fp, dg)
    return l > 1 and rr > 1, 'dir%+d|%s' % (np.sign(dr), t[4])


def s_svd(st):
    return st.tuples(s_tensor(st), st.sampled_from([1, -1]), st.one_of(st.none(), st.integers(1, 7)), st.sampled_from([None, 1e-12, 0.01, 0.3, 1.0])).map(list)


def r_svd(case):
    t, dr, D, thr = case
    a = tensor(t)
    l, rr, d = a.shape
    a0 = a.copy()
    mat = a.transpose(2, 0, 1).reshape(d * l, rr) if dr > 0 else a.reshape(l, rr * d)
    S = np.linalg.svd(mat, compute_uv=False)
    kw = {}
    if D is not None:
        kw['D'] = D
    if thr is not None:
        kw['thresh'] = thr
    k = len(S) if thr is None else int(np.sum(S > thr))
    if thr is not None and np.any(np.abs(S - thr) < 1e-6 * thr):
        raise Skip('threshold on a singular value')
    if D is not None:
        k = min(k, D)
    if k == 0:
        raise Skip('everything below the threshold')
    res = L.mf.prepareTruncate(a, dr, **kw)
    need(np.array_equal(a, a0), 'prepareTruncate changed its argument')
    what = 'prepareTruncate(direction=%d, %s)' % (dr, kw)
    if dr > 0:
        out, s, v, Z = res
        need(out.shape == (l, k, d) and s.shape == (k,) and v.shape == (k, rr), '{}: shapes {} {} {}', what, out.shape, s.shape, v.shape)
        need(q.is_left(out) < 1e-9, '{}: not left-isometric', what)
        need(np.linalg.norm(v.dot(v.conj().T) - np.eye(k)) < 1e-9, '{}: v is not isometric', what)
        rec = rmul(out, np.diag(s).dot(v))
    else:
        u, s, out, Z = res
        need(out.shape == (k, rr, d) and s.shape == (k,) and u.shape == (l, k), '{}: shapes {} {} {}', what, out.shape, s.shape, u.shape)
        need(q.is_right(out) < 1e-9, '{}: not right-isometric', what)
        need(np.linalg.norm(u.conj().T.dot(u) - np.eye(k)) < 1e-9, '{}: u is not isometric', what)
        rec = lmul(u.dot(np.diag(s)), out)
    nk = np.linalg.norm(S[:k])
    need(abs(Z - np.linalg.norm(a)) <= 1e-9 * np.linalg.norm(a), '{}: Z={} is not the norm {}', what, Z, np.linalg.norm(a))
    need(np.linalg.norm(s - S[:k] / nk) < 1e-9, '{}: singular values {} instead of {}', what, s, S[:k] / nk)
    # distance of the rescaled product to the input is the discarded weight
    err = np.linalg.norm(rec * nk - a)
    need(abs(err - np.linalg.norm(S[k:])) < 1e-7 * np.linalg.norm(a), '{}: error {} but discarded {}', what, err, np.linalg.norm(S[k:]))
    if k == len(S):
        q.need_close(rec * Z, a, what, tol=1e-9)
    # the deprecated routine
    for fx in (False, True):
        o, s2, w, Z2 = L.mf.prepareTensorSVD(a, dr, fixphase=fx)
        r2 = rmul(o, np.diag(s2).dot(w)) if dr > 0 else lmul(w.dot(np.diag(s2)), o)
        q.need_close(r2 * Z2, a, 'prepareTensorSVD(fixphase=%s)' % fx, tol=1e-9)
        need((q.is_left(o) if dr > 0 else q.is_right(o)) < 1e-9, 'prepareTensorSVD: not isometric')
        need(np.linalg.norm(s2 - S / np.linalg.norm(S)) < 1e-9, 'prepareTensorSVD: singular values')
        if fx:
            dg = np.diag(o.transpose(2, 0, 1).reshape(-1, o.shape[1])) if dr > 0 else np.diag(o.reshape(o.shape[0], -1))
            big = np.abs(dg) > 1e-8
            need(np.all(np.abs(np.imag(dg[big])) < 1e-8) and np.all(np.real(dg[big]) > 0), 'prepareTensorSVD: phase not fixed: {}', dg)
    return k < len(S), 'dir%+d|%s' % (dr, 'truncated' if k < len(S) else 'full')


def s_mat(st):
    return st.tuples(st.integers(1, 8), st.integers(1, 8), st.booleans().map(int), st.sampled_from(['rand', 'rank1', 'zero', 'zerocol', 'int', 'diag']), gen.seeds(st),
                     st.sampled_from(['q', 'r']), st.integers(1, 5), st.integers(1, 5), st.booleans().map(int)).map(list)


def r_mat(case):
    m, n, c, k, s, fix, m2, n2, c2 = case
    r = q.rng('M', s)
    a = q.gauss(r, (m, n), c)
    if k == 'rank1':
        a = a[:, :1].dot(a[:1, :])
    elif k == 'zero':
        a = a * 0
    elif k == 'zerocol':
        a[:, r.randint(0, n)] = 0
    elif k == 'int':
        a = np.round(a)
    elif k == 'diag':
        a = np.diag(np.diag(a)) if m == n else a
    a0 = a.copy()
    u, sv, v = L.mf.svd(a)
    p = min(m, n)
    need(u.shape == (m, p) and sv.shape == (p,) and v.shape == (p, n), 'svd shapes {} {} {}', u.shape, sv.shape, v.shape)
    q.need_close((u * sv).dot(v), a, 'svd product', scale=max(np.linalg.norm(a), 1.0))
    need(np.linalg.norm(u.conj().T.dot(u) - np.eye(p)) < 1e-9 and np.linalg.norm(v.dot(v.conj().T) - np.eye(p)) < 1e-9, 'svd factors are not isometric')
    need(np.all(np.diff(sv) <= 1e-12) and np.all(sv >= 0), 'singular values not sorted')
    Q, R = L.mf.qr(a, fix)
    q.need_close(Q.dot(R), a, "qr(signfix=%s) product" % fix, scale=max(np.linalg.norm(a), 1.0))
    need(np.linalg.norm(Q.conj().T.dot(Q) - np.eye(p)) < 1e-9, 'qr: q is not isometric')
    need(np.linalg.norm(np.tril(R, -1)) < 1e-9 * max(1, np.linalg.norm(a)), 'qr: r is not upper triangular')
    if not c:
        dg = np.diag(Q if fix == 'q' else R)
        need(np.all(dg >= -1e-12), 'qr: sign of the diagonal of {} not fixed: {}', fix, dg)
    b = q.gauss(r, (m2, n2), c2)
    ds = L.mf.directsum(a, b)
    e = np.zeros((m + m2, n + n2), dtype=complex)
    e[:m, :n] = a
    e[m:, n:] = b
    q.need_close(ds, e, 'directsum', tol=0.0, scale=1.0)
    need(np.array_equal(a, a0), 'an argument was changed')
    return m > 1 and n > 1, k


# ---------------------------------------------------------------- lists
def s_list(st):
    @st.composite
    def f(draw):
        sc = draw(gen.state(st, moves=False, z=False, Dmax=5))
        n = len(sc['d'])
        a, b = sorted([draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))])
        return [sc, draw(st.sampled_from(['QR', 'SVD'])), draw(st.sampled_from([1, -1])), draw(st.sampled_from([[0, n - 1], [a, b]])), draw(st.integers(1, 3)), draw(st.integers(1, 3))]
    return f()


def r_list(case):
    sc, how, dr, (a, b), el, er = case
    if sc['k'] == 'ghz':
        el = er = 1
    ts = [t.copy() for t in q.tensors_of(sc)]
    n = len(ts)
    r = q.rng('ends', sc['s'])
    if (el, er) != (1, 1):
        ts[0] = q.gauss(r, (el,) + ts[0].shape[1:], sc['c'])
        ts[-1] = q.gauss(r, (ts[-1].shape[0], er, ts[-1].shape[2]), sc['c'])
    x = q.contract(ts)
    if not np.linalg.norm(x) > 1e-5 * np.prod([np.linalg.norm(t) for t in ts]):
        raise Skip('zero state')
    f = L.mf.orthonormalizeQR if how == 'QR' else L.mf.orthonormalizeSVD
    r = f(ts, dr, a, b)
    what = 'orthonormalize%s(direction=%d, %d..%d of %d)' % (how, dr, a, b, n)
    for i in range(a, b + 1):
        res = q.is_left(ts[i]) if dr > 0 else q.is_right(ts[i])
        need(res < 1e-8, '{}: site {} is not orthonormal ({:.1e})', what, i, res)
    y = q.contract(ts)
    if dr > 0 and b == n - 1:
        y = np.tensordot(y, r, ([y.ndim - 1], [0]))
        q.need_close(y, x, what + ': contracting r from the right', tol=1e-8)
    elif dr < 0 and a == 0:
        y = np.tensordot(r, y, ([1], [0]))
        q.need_close(y, x, what + ': contracting r from the left', tol=1e-8)
    else:
        # r has been absorbed: the state is kept, its norm is the norm of the returned matrix
        q.need_close(y * np.linalg.norm(r), x, what + ': state with the returned norm', tol=1e-8)
    return a < b, how + '|' + ('full' if (a, b) == (0, n - 1) else 'part')


# ---------------------------------------------------------------- fine graining
def s_fine(st):
    return st.tuples(st.integers(2, 4), st.lists(st.integers(1, 5), min_size=5, max_size=5), st.booleans().map(int), gen.seeds(st), st.booleans().map(int)).map(list)


def r_fine(case):
    n, D, c, s, pbc = case
    r = q.rng('fine', s)
    b = (D[:1] if pbc else [1]) + D[1:n] + (D[4:5] if pbc else [1])
    ts = [q.gauss(r, (b[i], b[i + 1], 2), c) for i in range(n)]
    x = q.contract(ts)
    k0 = [t.copy() for t in ts]
    f = L.mf.FinegrainDolfi(ts)
    need(all(np.array_equal(p, o) for p, o in zip(ts, k0)), 'FinegrainDolfi changed its argument')
    need(len(f) == 2 * n, 'FinegrainDolfi returned {} tensors for {} sites', len(f), n)
    T = np.zeros((2, 2, 2))
    T[0, 0, 0] = 1
    T[1, 1, 0] = T[1, 0, 1] = 1 / np.sqrt(2)
    y = x
    for i in range(n):
        y = np.tensordot(y, T, ([1], [0]))      # site moves to the back as two sites
    y = np.moveaxis(y, 1, -1)
    q.need_close(q.contract(f), y, 'fine-grained state')
    return max(b) > 1, 'pbc' if pbc else 'obc'


# ---------------------------------------------------------------- orthonormality check routine
def s_check(st):
    return st.tuples(s_tensor(st), st.sampled_from(['l', 'r'])).map(list)


def r_check(case):
    t, w = case
    a = tensor(t)
    got = L.mf.check_normalization(a, w)
    want = q.is_left(a) if w == 'l' else q.is_right(a)
    need(abs(got - want) <= 1e-9 * max(1, want), 'check_normalization: {} instead of {}', got, want)
    m = L.MPS([a])
    o = m.ortho(0, 1 if w == 'l' else -1)
    need(abs(o - want) <= 1e-9 * max(1, want), 'ortho: {} instead of {}', o, want)
    return a.shape[0] > 1, w


FACETS = [
    Facet('qr', s_qr, r_qr, 2500, rule='both bond dimensions above 1'),
    Facet('svd', s_svd, r_svd, 2500, rule='a truncation took place'),
    Facet('matrix', s_mat, r_mat, 1500, rule='more than one row and column'),
    Facet('list', s_list, r_list, 1200, rule='more than one site was orthonormalised'),
    Facet('finegrain', s_fine, r_fine, 500, rule='a bond dimension above 1'),
    Facet('check', s_check, r_check, 400, rule='left bond dimension above 1'),
]
