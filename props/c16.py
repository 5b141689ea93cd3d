"""C16: regauging an infinite state changes its gauge only."""
from spec import Facet, Skip, need
import gen, inf

RULE = 'Non-trivial: bond dimension at least 2 at the cell boundary, more than one Schmidt value above 1e-6, and the input is not already in the requested gauge.'
ASSUMPTIONS = ['the state is injective: second largest transfer-matrix eigenvalue at most 0.95 of the first, fixed points with smallest eigenvalue above 1e-6',
               'cells that are rank-deficient up to the pseudo-inverse threshold (not injective) are generated with both fixed points singular on the same subspace only: the pseudo-inverse gauge is not exact for skew supports',
               'orthonormality is judged relative to the Arnoldi tolerance divided by the smallest fixed-point eigenvalue']


def load():
    global q, np, L
    import numpy as np
    import qlib as q
    L = q.lib()


def prep(case, gap=0.95, low=1e-6):
    ts = inf.build(case)
    o = inf.Inf(ts)
    if not o.good(gap, low):
        raise Skip('not injective or ill-conditioned')
    return ts, o


def same_state(o, ts, case, what, spectrum=True):
    """ts represent the same infinite state as o; returns the oracle of ts"""
    n = inf.Inf(ts)
    need(np.all([np.all(np.isfinite(t)) for t in ts]), '{}: tensors not finite', what)
    need([t.shape[2] for t in ts] == list(case['d']), '{}: local dimensions changed to {}', what, [t.shape for t in ts])
    need(abs(n.eta - 1) < 1e-7 + 1e-10 / o.cond(), '{}: dominant transfer-matrix eigenvalue {}', what, n.eta)
    f = inf.fidelity(o.ts, ts)
    need(abs(f - 1) < 1e-7, '{}: fidelity per unit cell with the original state is {}', what, f)
    for ob in inf.observables(case):
        a, b = o.expect(ob), n.expect(ob)
        need(abs(a - b) < 1e-6 * (1 + abs(a)), '{}: expectation value on sites {} changed from {} to {}', what, sorted(ob), a, b)
    if spectrum:
        need(inf.spec_close(o.spec, n.spec) < 1e-4, '{}: normalised transfer-matrix spectrum changed: {} -> {}', what, o.spec[:5], n.spec[:5])
    return n


def tol_of(o):
    return 1e-8 + 1e-8 / o.cond()


def left(ts, what, tol):
    for i, t in enumerate(ts):
        need(q.is_left(t) < tol, '{}: site {} is not left-orthonormal: {:.2e}', what, i, q.is_left(t))


def right(ts, what, tol):
    for i, t in enumerate(ts):
        need(q.is_right(t) < tol, '{}: site {} is not right-orthonormal: {:.2e}', what, i, q.is_right(t))


def schmidt_ok(got, want, what, tol=1e-6):
    got = np.asarray(got)
    need(got.ndim == 1 and np.isrealobj(got) and np.all(got > 0) and np.all(np.diff(got) <= 1e-10),
         '{}: Schmidt values not positive and descending: {}', what, got)
    need(abs(np.linalg.norm(got) - 1) < 1e-8, '{}: Schmidt values have norm {}', what, np.linalg.norm(got))
    k = max(len(got), len(want))
    a, b = np.zeros(k), np.zeros(k)
    a[:len(got)] = got
    b[:len(want)] = want
    need(np.linalg.norm(a - b) < tol, '{}: Schmidt values {} instead of {}', what, got, want)


def sided(ts, lam):
    """move lam (right of the cell) through left-orthonormal tensors: lam^-1 absorbed form lam*A..*lam^-1 sites, as one block"""
    out = [np.array(t) for t in ts]
    out[0] = np.tensordot(np.diag(lam), out[0], ([1], [0]))
    out[-1] = np.swapaxes(np.tensordot(out[-1], np.diag(1 / lam), ([1], [0])), 1, 2)
    return out


def block(ts):
    """cell as one tensor (D, D, prod d)"""
    x = ts[0]
    for t in ts[1:]:
        x = np.tensordot(x, t, ([1], [0]))               # a d b e
        x = np.transpose(x, (0, 2, 1, 3)).reshape(x.shape[0], t.shape[1], -1)
    return x


def nontriv(o, case, gauge, tol):
    if case['D'][0] < 2:
        return False
    s = o.schmidt(0)
    if np.sum(s > 1e-6) < 2:
        return False
    if gauge == 'left':
        return any(q.is_left(t) > tol for t in o.ts)
    if gauge == 'right':
        return any(q.is_right(t) > tol for t in o.ts)
    return True


def check_gauge(ts, gauge, ret, o, case, what):
    tol = tol_of(o)
    same_state(o, ts, case, what)
    D = ts[-1].shape[1]
    if gauge == 'left':
        left(ts, what, tol)
        need(q.close(ret, np.eye(D) / np.sqrt(D), 1e-10), '{}: returned matrix is not the normalised identity', what)
    elif gauge == 'right':
        right(ts, what, tol)
        need(q.close(ret, np.eye(D) / np.sqrt(D), 1e-10), '{}: returned matrix is not the normalised identity', what)
    else:
        left(ts, what, tol * 10)
        ret = np.asarray(ret)
        need(ret.shape == (D, D) and np.linalg.norm(ret - np.diag(np.diag(ret))) < 1e-12, '{}: returned Schmidt matrix is not diagonal', what)
        lam = np.diag(ret)
        schmidt_ok(lam, o.schmidt(0), what, 1e-6 + tol)
        b = block(ts)
        x = np.tensordot(np.tensordot(b, np.diag(lam ** 2), ([1], [0])), b.conj(), ([2, 1], [1, 2]))
        need(np.linalg.norm(x - np.diag(lam ** 2)) < 1e-7 + 10 * tol_of(o), '{}: squared Schmidt values are not the right fixed point: residual {:.2e}', what,
             np.linalg.norm(x - np.diag(lam ** 2)))


GAUGES = ['left', 'right', 'symmetric']


def s_cell(st):
    return st.tuples(inf.cell(st), st.sampled_from(GAUGES), st.booleans().map(int)).map(list)


def r_cell(case):
    c, gauge, obj = case
    ts, o = prep(c)
    arg = L.MPS(ts) if obj and c['D'][0] > 1 else [t.copy() for t in ts]
    ret = L.mf.regaugeIMPS(arg, gauge=gauge)
    check_gauge(list(arg), gauge, ret, o, c, 'regaugeIMPS {}'.format(gauge))
    return nontriv(o, c, gauge, 1e-8), '{} n{}'.format(gauge, min(len(ts), 3))


def s_obj(st):
    step = st.one_of(st.tuples(st.just('g'), st.sampled_from(GAUGES)), st.tuples(st.just('p'), st.integers(0, 4)),
                     st.tuples(st.just('c'), st.just(0))).map(list)
    return st.tuples(inf.cell(st, wrap=2), st.lists(step, min_size=1, max_size=5)).map(list)


def r_obj(case):
    c, steps = case
    ts, o = prep(c)
    m = L.MPS([t.copy() for t in ts])
    m._Z = 1.0
    n = len(ts)
    g = 0
    for i, (k, a) in enumerate(steps):
        what = 'step {} {} {}'.format(i, k, a)
        if k == 'p':
            p = min(a, n)
            m.position(p)
            need(m._position == p, '{}: centre at {}', what, m._position)
            f = inf.fidelity(ts, inf.of_mps(m))
            need(abs(f - 1) < 1e-7, '{}: moving the centre changed the state: fidelity {}', what, f)
        elif k == 'c':
            m.canonize()
            gamma_ok(m._gamma, m._lambda, o, c, what)
            same_state(o, unit(inf.of_mps(m)), c, what)
            g += 1
        else:
            m.regauge(a)
            g += 1
            cell = inf.of_mps(m)
            same_state(o, unit(cell) if 0 else cell, c, what)
            need(m._position == (0 if a == 'right' else n), '{}: centre at {}', what, m._position)
            need(np.linalg.norm(m._mat.dot(m._connector) - np.eye(len(m._mat))) < 1e-8, '{}: centre matrix times connector is not the identity', what)
            check_gauge(list(m._tensors), a, m._mat, o, c, what)
    return g > 0 and nontriv(o, c, steps[0][1], 1e-8), 'g{}'.format(min(g, 3))


def unit(ts):
    """rescale the cell to dominant eigenvalue one"""
    e = np.max(np.abs(np.linalg.eigvals(inf.cell_tm(ts))))
    return [ts[0] / np.sqrt(e)] + list(ts[1:])


def gamma_ok(Gam, Lam, o, c, what):
    n = len(c['d'])
    tol = 10 * tol_of(o) + 1e-7
    need(len(Gam) == n and len(Lam) == n + 1, '{}: {} Gamma and {} Lambda for {} sites', what, len(Gam), len(Lam), n)
    for b in range(n + 1):
        schmidt_ok(Lam[b], o.schmidt(b), '{} bond {}'.format(what, b), 1e-6 + tol)
    lg = [np.tensordot(np.diag(Lam[i]), Gam[i], ([1], [0])) for i in range(n)]
    gl = [np.swapaxes(np.tensordot(Gam[i], np.diag(Lam[i + 1]), ([1], [0])), 1, 2) for i in range(n)]
    s = min(np.min(x) for x in Lam)
    left(lg, what + ' Lambda Gamma', tol / s)
    right(gl, what + ' Gamma Lambda', tol / s)
    same_state(o, unit(lg), c, what + ' Lambda Gamma', spectrum=False)


def s_canon(st):
    return st.tuples(inf.cell(st, wrap=2), st.sampled_from(['obj', 'list'])).map(list)


def r_canon(case):
    c, form = case
    ts, o = prep(c)
    if form == 'obj':
        m = L.MPS([t.copy() for t in ts])
        m.canonize()
        gamma_ok(m._gamma, m._lambda, o, c, 'MPS.canonize')
        same_state(o, inf.of_mps(m), c, 'state after MPS.canonize')
    else:
        arg = [t.copy() for t in ts]
        L.mf.regaugeIMPS(arg, gauge='symmetric')
        keep = [t.copy() for t in arg]
        G, Lm = L.mf.canonizeMPS(arg)
        need(all(np.array_equal(a, b) for a, b in zip(keep, arg)), 'canonizeMPS changed its argument')
        gamma_ok(G, Lm, o, c, 'canonizeMPS')
    return nontriv(o, c, 'symmetric', 1e-8), form


def s_single(st):
    return st.tuples(inf.cell(st, nmin=1, nmax=1, Dmax=8, dmax=4), st.sampled_from(GAUGES), st.sampled_from([None, 'x'])).map(list)


def r_single(case):
    c, gauge, init = case
    ts, o = prep(c)
    t = ts[0]
    D = t.shape[0]
    arg = t.copy()
    initial = None if init is None else np.eye(D).reshape(-1) / np.sqrt(D)
    ret = L.mf.regauge(arg, gauge, initial=initial)
    need(np.array_equal(arg, t), 'regauge {} changed its argument', gauge)
    tol = tol_of(o)
    what = 'regauge ' + gauge
    if gauge in ('left', 'right'):
        out, x = ret
        same_state(o, [out], c, what)
        (left if gauge == 'left' else right)([out], what, tol)
        # x (or y) is the gauge transformation: x x^dagger (its transpose for 'left') is the fixed point
        fp = x.dot(x.conj().T)
        want = o.l if gauge == 'left' else o.r
        q.need_close(fp, want, what + ': square of the returned gauge matrix is not the fixed point', 1e-6)
        # and it connects the old and the new tensor: y^T... checked on the transfer level
    else:
        G, lam, tw = ret
        need(abs(tw) < 1e-12, '{}: reports truncated weight {} without truncation', what, tw)
        schmidt_ok(lam, o.schmidt(0), what, 1e-6 + tol)
        s = np.min(lam)
        lg = np.tensordot(np.diag(lam), G, ([1], [0]))
        gl = np.swapaxes(np.tensordot(G, np.diag(lam), ([1], [0])), 1, 2)
        left([lg], what, tol / s)
        right([gl], what, tol / s)
        same_state(o, [lg], c, what)
    return nontriv(o, c, gauge, 1e-8), '{}{}'.format(gauge, ' init' if init else '')


def s_trunc(st):
    c = inf.cell(st, nmax=3, Dmax=3, wrap=2, kinds=['rand', 'rand', 'near', 'decay', 'pos'])
    return st.tuples(c, st.integers(1, 3), st.sampled_from([0.0, 0.0, 1e-4, 1e-3, 1e-6]), st.sampled_from(['list', 'mps', 'regauge', 'single']),
                     st.sampled_from([None, 'left', 'right', 'symmetric'])).map(list)


def enlarge(ts, k, eps, key, c):
    """the same infinite state up to eps, written with k more bond states and scrambled by a gauge"""
    r = q.rng('enl', key)
    n = len(ts)
    D = [t.shape[0] for t in ts]
    G = [np.eye(x + k) + 0.3 * q.gauss(r, (x + k, x + k), c) / np.sqrt(x + k) for x in D]
    if eps < 1e-5:
        G = [np.linalg.qr(g)[0] for g in G]
    out = []
    for i, t in enumerate(ts):
        a, b, d = t.shape
        y = q.gauss(r, (a + k, b + k, d), c)
        x = eps * y
        x[:a, :b] = t
        x[a:, b:] = y[a:, b:] * (0.1 / np.linalg.norm(y[a:, b:]))
        out.append(np.swapaxes(np.tensordot(np.tensordot(G[i], x, ([1], [0])), np.linalg.inv(G[(i + 1) % n]), ([1], [0])), 1, 2))
    return out


def r_trunc(case):
    """a state that needs bond dimensions D only (up to weight eps^2) is cut down to them and stays the same"""
    c, k, eps, form, back = case
    ts = unit(inf.build(c))
    if form == 'single':
        ts = ts[:1] if len(ts) == 1 else None
        if ts is None:
            raise Skip('single-site form needs one site')
    o = inf.Inf(ts)
    if not o.good(0.8, 1e-4):
        raise Skip('not injective or ill-conditioned')
    n = len(ts)
    if min(o.schmidt(b)[-1] for b in range(n)) < 1e-2:
        raise Skip('small Schmidt values')
    big = enlarge(ts, k, eps, c['s'], c['c'])
    D = max(t.shape[0] for t in ts)
    thr = max(1e-6, 30 * eps)
    what = 'truncation ({})'.format(form)
    if form == 'list':
        lam = np.diag(L.mf.regaugeIMPS(big, gauge='symmetric', truncate=thr, D=D, tol=1e-14))
        out = big
        back = 'symmetric'
    elif form == 'mps':
        m = L.MPS(big)
        m.truncate(schmidt_thresh=thr, D=D, returned_gauge=back, tol=1e-14)
        out = inf.of_mps(m)
        lam = np.diag(m._mat)
        back = back or 'symmetric'
        tens = m._tensors
        need(m._position == (0 if back == 'right' else n), '{}: centre at {}', what, m._position)
    elif form == 'regauge':
        m = L.MPS(big, schmidt_thresh=thr)
        m._D = D
        m.regauge('symmetric', tol=1e-14)
        back = 'symmetric'
        out = inf.of_mps(m)
        lam = np.diag(m._mat)
    else:
        G, lam, tw = L.mf.regauge(big[0], 'symmetric', trunc=thr, Dmax=D, tol=1e-14, pinv=1e-12)
        need(tw >= 0 and tw < 100 * thr, '{}: reports truncated weight {}', what, tw)
        out = [np.tensordot(np.diag(lam), G, ([1], [0]))]
        back = None
    need(max(t.shape[0] for t in out) <= D, '{}: bond dimensions {} above the limit {}', what, [t.shape for t in out], D)
    need(out[0].shape[0] == len(lam), '{}: {} Schmidt values for bond dimension {}', what, len(lam), out[0].shape[0])
    if eps == 0:
        need([t.shape[0] for t in out] == [t.shape[0] for t in ts] or n > 1, '{}: bond dimensions {} for a state that needs {}', what,
             [t.shape[0] for t in out], [t.shape[0] for t in ts])
    e = np.max(np.abs(np.linalg.eigvals(inf.cell_tm(out))))
    need(abs(e - 1) < 1e-7 + 100 * eps, '{}: dominant eigenvalue {}', what, e)
    f = inf.fidelity(ts, out)
    need(abs(f - 1) < 1e-7 + 100 * eps, '{}: fidelity per unit cell {} after dropping weight of order {}', what, f, eps ** 2)
    a = inf.Inf(out)
    for ob in inf.observables(c):
        x, y = o.expect(ob), a.expect(ob)
        need(abs(x - y) < (1e-6 + 1000 * eps) * (1 + abs(x)), '{}: expectation value on sites {} changed from {} to {}', what, sorted(ob), x, y)
    if back == 'symmetric':
        schmidt_ok(lam, o.schmidt(0), what, 1e-5 + 100 * eps)
        left(out if form == 'list' else m._tensors, what, 1e-5)
    elif back == 'left':
        left(m._tensors, what, 1e-5)
    elif back == 'right':
        right(m._tensors, what, 1e-5)
    return c['D'][0] > 1, '{} {}'.format(form, 'exact' if eps == 0 else 'approximate')


FACETS = [
    Facet('truncate', s_trunc, r_trunc, 350, rule='the cell boundary needs bond dimension >= 2 and was enlarged'),
    Facet('cell', s_cell, r_cell, 500, rule='bond dimension >= 2, more than one Schmidt value, input not yet in the gauge'),
    Facet('history', s_obj, r_obj, 350, rule='at least one regauging of a non-trivial state'),
    Facet('gamma-lambda', s_canon, r_canon, 350, rule='more than one Schmidt value'),
    Facet('single', s_single, r_single, 450, rule='bond dimension >= 2, more than one Schmidt value, input not yet in the gauge'),
]
