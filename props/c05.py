"""C05: truncation keeps norm, respects caps, is bounded by the exact Schmidt spectra."""
from spec import Facet, need, Skip
import gen

RULE = 'Non-trivial: the truncation really discarded Schmidt weight above 1e-8 on some bond.'
ASSUMPTIONS = ['thresholds are compared with the Schmidt values of the normalised state',
               'spectra with Schmidt values within 1e-6 (relative) of the threshold or degenerate at the cut are skipped where the exact number of kept values is compared']


def load():
    global q, np, L
    import numpy as np
    import qlib as q
    L = q.lib()


THR = [0.0, 1e-16, 1e-12, 1e-6, 1e-3, 0.03, 0.1, 0.2]


def fidelity(x, y):
    return abs(np.sum(x.conj() * y)) ** 2 / (np.linalg.norm(x) ** 2 * np.linalg.norm(y) ** 2)


def bounds(x0, x1, D, Dcap, thr, crossed, what):
    """x0 original vector, x1 truncated, D bond dimensions of the result, crossed: bonds that were truncated"""
    n = x0.ndim
    s0 = {b: q.schmidt(x0, b) for b in range(1, n)}
    F = fidelity(x0, x1)
    loss = 0.0
    disc = 0.0
    for b in crossed:
        if not 1 <= b <= n - 1:
            continue
        s = s0[b]
        up = np.sum(s[:D[b]] ** 2)
        need(F <= up + 1e-9, '{}: fidelity {} exceeds the weight {} of the best rank-{} approximation at bond {} (impossible unless the state is wrong)',
             what, F, up, D[b], b)
        if Dcap is not None:
            need(D[b] <= Dcap, '{}: bond {} has dimension {} > {}', what, b, D[b], Dcap)
        # what the request allows to discard at this bond
        keep = len(s) if Dcap is None else min(Dcap, len(s))
        disc_d = np.sum(s[keep:] ** 2)
        disc_t = np.sum(s[(s <= thr * (1 + 1e-6)) & (np.arange(len(s)) < keep)] ** 2) if thr > 1e-15 else 0.0
        disc += disc_d
        loss += disc_d + disc_t
    return F, loss, disc


# ---------------------------------------------------------------- dedicated truncation
def s_trunc(st):
    return st.tuples(gen.state(st, kinds=['rand', 'rand', 'decay', 'ghz', 'low', 'int'], Dmax=9, Dmin=3, dmin=2, nmin=3, cap=1200), st.one_of(st.none(), st.integers(1, 3), st.integers(1, 9)),
                     st.sampled_from(THR), st.sampled_from(['truncate', 'down', 'up'])).map(list)


def r_trunc(case):
    sc, D, thr, mode = case
    m = q.mk(sc)
    d = sc['d']
    n = len(d)
    x0 = q.vec(m)
    nrm = np.linalg.norm(x0)
    if mode == 'truncate':
        m.truncate(schmidt_thresh=thr, D=D)
    elif mode == 'down':
        m.position(n)
        m.position(0, schmidt_thresh=thr, D=D)
    else:
        m.position(0)
        m.position(n, schmidt_thresh=thr, D=D)
    what = '%s(D=%s, thresh=%g)' % (mode, D, thr)
    q.check_shapes(m, d, what)
    if any(t.size == 0 for t in m._tensors):
        raise Skip('everything below the threshold')
    x1 = q.vec(m)
    q.check_canonical(m, what)
    # thresholds below 1e-15 mean: no truncation by threshold
    F, loss, _ = bounds(x0, x1, q.bonds(m), D, thr, range(1, n), what)
    if thr < 0.15:
        need(F >= 1 - loss - slack(x0, thr, n) - 1e-9, '{}: fidelity {} below 1 - {} (sum of all discarded weights)', what, F, loss)
    need(abs(np.linalg.norm(x1) - nrm) <= 1e-9 * nrm, '{}: norm changed from {} to {}', what, nrm, np.linalg.norm(x1))
    if loss == 0.0:
        q.need_close(x1, x0, what + ': nothing to discard, but the vector changed', tol=1e-8)
    return loss > 1e-8, '%s|%s' % (mode, 'D' if D else 'noD')


def slack(x0, thr, n):
    """renormalisation after earlier cuts raises nothing above the threshold that was below; values that fall below the threshold
    in the course of the sweep add at most rank*thr^2 per bond"""
    if thr <= 1e-15:
        return 0.0
    return sum(min(np.prod(x0.shape[:b]), np.prod(x0.shape[b:])) for b in range(1, n)) * thr ** 2 * 1.5


# ---------------------------------------------------------------- one bond: the exact projection
def s_one(st):
    return st.tuples(gen.state(st, kinds=['rand', 'rand', 'decay', 'low'], Dmax=9, Dmin=3, dmin=2, nmin=3, cap=1200), st.integers(0, 12), st.booleans().map(int),
                     st.one_of(st.none(), st.integers(1, 3), st.integers(1, 8)), st.sampled_from(THR), st.booleans().map(int)).map(list)


def r_one(case):
    sc, p, right, D, thr, attr = case
    m = q.mk(sc)
    d = sc['d']
    n = len(d)
    t = 1 + p % (n - 1)
    p = t - 1 if right else t + 1
    m.position(p)
    x0 = q.vec(m)
    nrm = np.linalg.norm(x0)
    s = q.schmidt(x0, t)
    if thr > 1e-15:
        k = int(np.sum(s > thr))
        if np.any(np.abs(s - thr) < 1e-6 * thr):
            raise Skip('threshold on a Schmidt value')
        # truncation sees the state normalised (the centre matrix has norm one)
    else:
        k = len(s)
    if D is not None:
        k = min(k, D)
    if k == 0:
        raise Skip('everything below the threshold')
    if k < len(s) and s[k - 1] - s[k] < 1e-6 * s[k - 1]:
        raise Skip('degenerate cut')
    if attr and thr > 1e-15:
        m._schmidt_thresh = thr
        m.position(t, D=D)
    else:
        m.position(t, schmidt_thresh=thr, D=D)
    what = 'position(%d->%d, D=%s, thresh=%g)' % (p, t, D, thr)
    mat = x0.reshape(int(np.prod(d[:t])), -1)
    u, sv, v = np.linalg.svd(mat, full_matrices=False)
    y = (u[:, :k] * sv[:k]).dot(v[:k])
    y = (y * nrm / np.linalg.norm(y)).reshape(x0.shape)
    q.need_close(q.vec(m), y, what + ': state is not the best approximation with the original norm', tol=1e-7)
    kept = m._tensors[t - 1].shape[1] if right else m._tensors[t].shape[0]
    if thr > 1e-15:
        need(kept == k, '{}: kept {} values, {} exceed the threshold', what, kept, k)
    if D is not None:
        need(kept <= D, '{}: bond dimension {} exceeds D', what, kept)
    q.check_canonical(m, what)
    return k < np.sum(s > 1e-10), '%s' % ('thresh' if thr > 1e-15 else 'D only' if D else 'none')


# ---------------------------------------------------------------- list truncation
def s_list(st):
    return st.tuples(gen.state(st, kinds=['rand', 'decay', 'ghz', 'low'], Dmax=9, Dmin=3, dmin=2, nmin=3, cap=1200, moves=False, z=False), st.integers(1, 6)).map(list)


def r_list(case):
    sc, D = case
    ts = [t.copy() for t in q.tensors_of(sc)]
    x0 = q.vec_list(ts)
    if not np.linalg.norm(x0) > 1e-6 * np.prod([np.linalg.norm(t) for t in ts]):
        raise Skip('zero state')
    n = len(ts)
    lams = L.mf.truncateMPS(ts, D)
    x1 = q.vec_list(ts)
    need(abs(np.linalg.norm(x1) - 1) < 1e-9, 'truncateMPS: norm {}', np.linalg.norm(x1))
    b = [1] + [t.shape[1] for t in ts]
    F, loss, _ = bounds(x0, x1, b, D, 0.0, range(1, n), 'truncateMPS(D=%d)' % D)
    need(F >= 1 - loss - 1e-9, 'truncateMPS: fidelity {} below 1 - {}', F, loss)
    for i in range(n):
        need(q.is_left(ts[i]) < 1e-8, 'truncateMPS: site {} is not left-orthonormal', i)
    if loss == 0:
        for i in range(n - 1):
            s = q.schmidt(x0, i + 1)
            k = len(lams[i])
            need(np.linalg.norm(np.sort(lams[i])[::-1][:len(s)] - s[:k]) < 1e-8 if k <= len(s) else True,
                 'truncateMPS: returned Schmidt values {} at bond {} instead of {}', lams[i], i + 1, s)
    return loss > 1e-8, 'D=%d' % D


FACETS = [
    Facet('truncate', s_trunc, r_trunc, 2500, rule='more than 1e-8 of weight was discarded'),
    Facet('onebond', s_one, r_one, 2500, rule='a Schmidt value above 1e-10 was discarded'),
    Facet('list', s_list, r_list, 800, rule='more than 1e-8 of weight was discarded'),
]
