"""C24: constructors build exactly the state they describe."""
from spec import Facet, Skip, need
import gen, inf, c16

RULE = 'Non-trivial: at least two sites and bond dimension above one (product states: a local state that is no basis vector).'
ASSUMPTIONS = ['the plain constructor MPS(tensors) documents an unnormalised state, only its tensors and attributes are judged',
               'random, ones and fromList deliver normalised states, productState of a finite chain keeps the norm of its arguments',
               'tensor lists with bond dimension 1 at both ends denote open chains']


def load():
    global q, np, L
    import numpy as np
    import qlib as q
    c16.load()
    L = q.lib()


DT = ['float', 'complex', 'npfloat', 'npcomplex', 'float64', 'complex128']


def dt(name):
    return {'float': float, 'complex': complex, 'npfloat': np.dtype(float), 'npcomplex': np.dtype(complex), 'float64': np.float64, 'complex128': np.complex128}[name]


def attrs(m, n, d, obc, what, cplx=None):
    need(len(m) == n and m.obc is obc and list(m.d) == list(d), '{}: length {} obc {} d {}', what, len(m), m.obc, m.d)
    need(0 <= m.pos <= n, '{}: centre at {}', what, m.pos)
    if cplx is not None:
        need(np.issubdtype(m.dtype, np.complexfloating) == cplx, '{}: dtype {}', what, m.dtype)
        need(all(np.iscomplexobj(t) == cplx for t in m), '{}: tensors of dtype {}', what, [t.dtype for t in m])
    b = q.bonds(m)
    need(list(m.D) == b and b[0] == b[-1] or not obc, '{}: bonds {}', what, b)
    need(m.Dmax >= max(b), '{}: limit {} below the bond dimensions {}', what, m.Dmax, b)
    for t in m:
        need(isinstance(t, np.ndarray) and t.ndim == 3, '{}: tensor {}', what, type(t))
    if obc:
        q.check_shapes(m, list(d), what)


def canonical(m, what):
    q.check_canonical(m, what)
    need(abs(np.linalg.norm(q.vec(m)) - 1) < 1e-9, '{}: norm {}', what, np.linalg.norm(q.vec(m)))


def dlist(d, form):
    if form == 'list':
        return list(d)
    if form == 'array':
        return np.array(d)
    if form == 'tuple':
        return tuple(d)
    return int(d[0])


# ------------------------------------------------------------------------------------------------ random states
def s_dim(st, obc):
    @st.composite
    def f(draw):
        form = draw(st.sampled_from(['list', 'array', 'tuple', 'int', 'int']))
        n = draw(st.integers(2 if obc else 1, 6 if obc else 4))
        d = [draw(st.integers(1 if obc else 2, 3))] * n if form == 'int' else [draw(st.integers(1 if obc else 2, 4 if obc else 3)) for _ in range(n)]
        while obc and len(d) > 2 and np_prod(d) > 600:
            d = d[:-1]
        return form, d
    return f()


def np_prod(d):
    k = 1
    for x in d:
        k *= x
    return k


def s_rand(st):
    return st.tuples(s_dim(st, True).map(list), st.integers(1, 8), st.sampled_from(DT), st.sampled_from([None, 0.5, 1.0, 0.01, 30.0]), st.sampled_from([None, 0.5, 0.0, 1.0, 0.3]), st.integers(0, 10 ** 6)).map(list)


def r_rand(case):
    (form, d), D, dn, scaling, shift, s = case
    n = len(d)
    kw = {}
    if scaling is not None:
        kw['scaling'] = scaling
    if shift is not None:
        kw['shift'] = shift
    arg = dlist(d, form)
    np.random.seed(s)
    m = L.MPS.random(n, D, arg, True, dtype=dt(dn), **kw)
    what = 'random({}, {}, {}, dtype={}, {})'.format(n, D, arg, dn, kw)
    cp = 'complex' in dn
    attrs(m, n, d, True, what, cp)
    canonical(m, what)
    b = q.bonds(m)
    need(all(b[i] <= min(D, np_prod(d[:i]), np_prod(d[i:])) for i in range(n + 1)), '{}: bonds {}', what, b)
    x = q.vec(m)
    if form != 'int':
        need(np.array_equal(np.array(arg), d), '{} changed the list of dimensions', what)
    np.random.seed(s)                         # the same random tensors, contracted directly
    ts = L.mf.MPSinitializer(np.random.random_sample, n, D, arg, True, dt(dn), kw.get('scaling', 0.5), kw.get('shift', 0.5))
    need([t.shape for t in ts] == [(1 if i == 0 else D, 1 if i == n - 1 else D, d[i]) for i in range(n)], '{}: initial tensors of shapes {}', what, [t.shape for t in ts])
    y = q.vec_list(ts)
    ny = np.linalg.norm(y)
    if ny > 1e-9 * np.prod([np.linalg.norm(t) for t in ts]):
        q.need_close(x, y / ny, what + ' vs its random tensors', 1e-7)
    a, sh = kw.get('scaling', 0.5), kw.get('shift', 0.5)
    for t in ts:
        for z in ([t.real, t.imag] if cp else [t]):
            need(z.min() >= -sh * a - 1e-12 and z.max() <= (1 - sh) * a + 1e-12, '{}: entries between {} and {}', what, z.min(), z.max())
    full = [min(D, np_prod(d[:i]), np_prod(d[i:])) for i in range(n + 1)]
    np.random.seed(s)
    m2 = L.MPS.random(n, D, arg, True, dtype=dt(dn), **dict(kw, scaling=2.0 * kw.get('scaling', 0.5)))
    q.need_close(q.vec(m2), x, what + ': the overall scaling of a normalised state', 1e-7)
    m3 = L.MPS.random(n, D, arg, True, dtype=dt(dn), **kw)
    if np_prod(d) > 1 and max(full) > 0:
        need(np.linalg.norm(q.vec(m3) - x) > 1e-9, '{}: two random states are the same', what)
    for k in range(n):
        m[k][...] = 0.0
    q.need_close(q.vec(m2), x, 'states share memory', 1e-7)
    return D > 1 and max(d) > 1, '{}|{}'.format(form, dn)


# ------------------------------------------------------------------------------------------------ random cells
def s_irand(st):
    return st.tuples(s_dim(st, False).map(list), st.integers(1, 6), st.sampled_from(DT), st.sampled_from([None, 0.5, 2.0]), st.sampled_from([None, 0.5, 0.0, 0.2]), st.integers(0, 10 ** 6)).map(list)


def r_irand(case):
    (form, d), D, dn, scaling, shift, s = case
    n = len(d)
    kw = {}
    if scaling is not None:
        kw['scaling'] = scaling
    if shift is not None:
        kw['shift'] = shift
    arg = dlist(d, form)
    cp = 'complex' in dn
    np.random.seed(s)
    ts = L.mf.MPSinitializer(np.random.random_sample, n, D, arg, False, dt(dn), kw.get('scaling', 0.5), kw.get('shift', 0.5))
    need([t.shape for t in ts] == [(D, D, k) for k in d], 'initial tensors of shapes {}', [t.shape for t in ts])
    np.random.seed(s)
    ti = L.mf.MPSinit(n, D, arg, False, dt(dn), kw.get('scaling', 1.0), kw.get('shift', 0.5))
    need(all(np.allclose(a * kw.get('scaling', 1.0) / kw.get('scaling', 0.5), b) for a, b in zip(ts, ti)), 'MPSinit and MPSinitializer differ')
    np.random.seed(s)
    m = L.MPS.random(n, D, arg, False, dtype=dt(dn), **kw)
    what = 'random({}, {}, {}, obc=False, dtype={}, {})'.format(n, D, arg, dn, kw)
    attrs(m, n, d, False, what, cp)
    now = inf.of_mps(m)
    need(now[0].shape[0] == now[-1].shape[1], '{}: the cell does not close: {}', what, [t.shape for t in now])
    cell_same(ts, now, what)
    return D > 1, '{}|n{}'.format(form, n)


def cell_same(a, b, what):
    if inf.Inf([t / np.linalg.norm(t) for t in a]).gap > 0.98:
        raise Skip('nearly degenerate cell')
    f = inf.fidelity(a, b)
    need(abs(f - 1) < 1e-6, '{}: fidelity per cell {}', what, f)


# ------------------------------------------------------------------------------------------------ constant states
def s_const(st):
    return st.tuples(st.booleans().map(int), st.one_of(s_dim(st, True).map(lambda x: [1, list(x)]), s_dim(st, False).map(lambda x: [0, list(x)])), st.integers(1, 6), st.sampled_from(DT)).map(list)


def r_const(case):
    one, (obc, (form, d)), D, dn = case
    n = len(d)
    obc = bool(obc)
    arg = dlist(d, form)
    cp = 'complex' in dn
    what = '{}({}, {}, {}, {}, dtype={})'.format('ones' if one else 'zeros', n, D, arg, obc, dn)
    m = (L.MPS.ones if one else L.MPS.zeros)(n, D, arg, obc, dtype=dt(dn))
    attrs(m, n, d, obc, what, cp)
    if not one:
        if obc:
            need(np.all(q.vec(m) == 0), '{} is not zero', what)
            need(q.bonds(m) == [1] + [D] * (n - 1) + [1], '{}: bonds {}', what, q.bonds(m))
        else:
            need(all(np.all(t == 0) for t in m), '{} has entries', what)
        need(np.isfinite(m._Z) and np.all(np.isfinite(m._mat)), '{}: norm factor {}', what, m._Z)
    elif obc:
        canonical(m, what)
        x = q.vec(m)
        q.need_close(x, np.ones(d) / np.sqrt(np_prod(d)), what, 1e-9)
    else:
        now = inf.of_mps(m)
        need(now[0].shape[0] == now[-1].shape[1], '{}: the cell does not close', what)
        f = inf.fidelity([np.ones((1, 1, k)) for k in d], now)
        need(abs(f - 1) < 1e-7, '{}: fidelity per cell with the uniform product state {}', what, f)
    return D > 1, '{}|{}|{}'.format('ones' if one else 'zeros', 'obc' if obc else 'inf', dn)


# ------------------------------------------------------------------------------------------------ product states
def s_prod(st):
    @st.composite
    def f(draw):
        obc = draw(st.booleans())
        n = draw(st.integers(2 if obc else 1, 6))
        loc = []
        tot = 1
        for _ in range(n):
            d = draw(st.integers(1, 4))
            if tot * d > 800:
                d = 1
            tot *= d
            kind = draw(st.sampled_from(['basis', 'rand', 'crand', 'int', 'scaled', 'list']))
            loc.append([d, kind, draw(gen.seeds(st))])
        return {'obc': int(obc), 'loc': loc, 'dt': draw(st.sampled_from(DT))}
    return f()


def r_prod(case):
    obc = bool(case['obc'])
    loc = []
    entangled = False
    for k, (d, kind, s) in enumerate(case['loc']):
        r = q.rng('loc', s, k)
        if kind == 'basis':
            v = np.eye(d)[r.randint(d)]
        elif kind == 'int':
            v = r.randint(-2, 3, size=d)
            v[r.randint(d)] = 1
        else:
            v = q.gauss(r, (d,), kind == 'crand')
            v = v / np.linalg.norm(v)
            entangled = True
        if kind == 'scaled':
            v = v * [0.2, 3.0, -1.5][s % 3]
        loc.append(v)
    given = [v.copy() for v in loc]
    n = len(loc)
    d = [len(v) for v in loc]
    what = 'productState of {} states of dimensions {} obc={} dtype={}'.format(n, d, obc, case['dt'])
    m = L.MPS.productState(given, obc, dtype=dt(case['dt']))
    cp = 'complex' in case['dt'] or any(np.iscomplexobj(v) for v in loc)
    attrs(m, n, d, obc, what, cp)
    need(q.bonds(m) == [1] * (n + 1), '{}: bonds {}', what, q.bonds(m))
    need(all(np.array_equal(a, b) for a, b in zip(given, loc)), '{} changed its arguments', what)
    for v in given:
        v[...] = 7
    if obc:
        x = np.ones(())
        for v in loc:
            x = np.multiply.outer(x, v)
        q.need_close(q.vec(m), x, what, 1e-10)
        q.check_canonical(m, what)
        hs = [q.rand_op(q.rng('o', i), k, 1) for i, k in enumerate(d)]
        got = m.measureList(hs)
        nx = np.linalg.norm(x) ** 2
        for k in range(n):
            w = q.expect(x, [(k, hs[k])])
            need(abs(got[k] - w) <= 1e-9 * nx * np.linalg.norm(hs[k]), '{}: measured {} instead of {} at site {}', what, got[k], w, k)
    else:
        now = inf.of_mps(m)
        for k in range(n):
            a = now[k][0, 0]
            b = loc[k]
            need(abs(abs(np.vdot(a, b)) - np.linalg.norm(a) * np.linalg.norm(b)) < 1e-10 * np.linalg.norm(b) * np.linalg.norm(a), '{}: local state {} at site {} instead of {}', what, a, k, b)
    # moving the centre does not change it
    x = q.vec(m) if obc else None
    for p in [0, n, n // 2]:
        m.position(p)
    if obc:
        q.need_close(q.vec(m), x, what + ' after centre moves', 1e-10)
    return n > 1 and entangled and max(d) > 1, '{}|{}'.format('obc' if obc else 'inf', case['dt'])


# ------------------------------------------------------------------------------------------------ lists of tensors
def s_list(st):
    return st.tuples(gen.state(st, cap=500, nmax=6, Dmax=6, moves=False, z=False), st.sampled_from(['none', 'mat', 'cmat', 'rect']), gen.seeds(st), st.booleans().map(int), st.sampled_from([1.0, 1e-3, -5.0])).map(list)


def r_list(case):
    sc, mk, s, own, f = case
    ts = q.tensors_of(sc)
    n = len(ts)
    ts[0] = ts[0] * f
    d = sc['d']
    r = q.rng('mat', s)
    mat = None
    if mk != 'none':
        mat = q.gauss(r, (1, 1), mk == 'cmat')
    x = q.vec_list(ts) * (1.0 if mat is None else mat[0, 0])
    nx = np.linalg.norm(x)
    keep = [t.copy() for t in ts]
    what = 'fromList with mat={}'.format(mat)
    cp = any(np.iscomplexobj(t) for t in ts) or mk == 'cmat'
    if not own and mat is None:
        m = L.MPS(ts)
        need(all(np.array_equal(a, b) for a, b in zip(m, keep)), 'MPS(tensors) changed the tensors')
        attrs(m, n, d, True, 'MPS(tensors)', cp)
        need(m.pos == n and m._mat.shape == (1, 1), 'MPS(tensors): centre {} {}', m.pos, m._mat)
        m[0][...] = 3.0
        need(all(np.array_equal(a, b) for a, b in zip(ts, keep)), 'MPS(tensors) shares memory with its argument')
    if not nx > 1e-9 * np.prod([np.linalg.norm(t) for t in keep]) * (1 if mat is None else np.linalg.norm(mat)):
        raise Skip('null vector')
    m = L.MPS.fromList(ts, mat) if mat is not None else L.MPS.fromList(ts)
    attrs(m, n, d, True, what)
    if cp and np.linalg.norm(x.imag) > 1e-6 * nx:
        need(np.iscomplexobj(m[0]) or np.iscomplexobj(m[n - 1]), '{}: real tensors for a complex vector', what)
    canonical(m, what)
    q.need_close(q.vec(m), x / nx, what, 1e-7)
    need(all(np.array_equal(a, b) for a, b in zip(ts, keep)), '{} changed its arguments', what)
    for t in ts:
        t[...] = 9.0
    if mat is not None:
        mat[...] = 5.0
    q.need_close(q.vec(m), x / nx, what + ' after its arguments were overwritten', 1e-7)
    return n > 1 and max(q.bonds(m)) > 1, '{}|{}'.format(mk, 'c' if cp else 'r')


def s_ilist(st):
    return st.tuples(inf.cell(st, wrap=2, kinds=['rand', 'rand', 'near', 'pos', 'right']), st.sampled_from(['none', 'mat', 'mat']), gen.seeds(st), st.booleans().map(int)).map(list)


def r_ilist(case):
    c, mk, s, own = case
    ts, o = c16.prep(c, 0.9, 1e-4)
    n = len(ts)
    keep = [t.copy() for t in ts]
    want = [t.copy() for t in ts]
    mat = None
    if mk == 'mat':
        D = ts[0].shape[0]
        mat = q.gauss(q.rng('mat', s), (D, D), 0) + 2 * np.eye(D)
        want[-1] = np.swapaxes(np.tensordot(want[-1], mat, ([1], [0])), 1, 2)
        if not inf.Inf(want).gap < 0.9:
            raise Skip('nearly degenerate')
    m = L.MPS.fromList(ts, mat) if own or mat is not None else L.MPS(ts)
    attrs(m, n, c['d'], False, 'cell of tensors')
    now = inf.of_mps(m)
    f = inf.fidelity(want, now)
    need(abs(f - 1) < 1e-6, 'cell of tensors, mat={}: fidelity per cell {}', mk, f)
    need(all(np.array_equal(a, b) for a, b in zip(ts, keep)), 'the constructor changed its arguments')
    for t in ts:
        t[...] = 9.0
    f = inf.fidelity(want, inf.of_mps(m))
    need(abs(f - 1) < 1e-6, 'cell of tensors after its arguments were overwritten: fidelity per cell {}', f)
    return max(t.shape[0] for t in keep) > 1, '{}|n{}'.format(mk, n)


FACETS = [
    Facet('random', s_rand, r_rand, 700, rule='bond dimension above one'),
    Facet('irandom', s_irand, r_irand, 300, rule='bond dimension above one'),
    Facet('constant', s_const, r_const, 300, rule='bond dimension above one'),
    Facet('product', s_prod, r_prod, 800, rule='several sites and superpositions'),
    Facet('list', s_list, r_list, 800, rule='several sites and bond dimension above one'),
    Facet('ilist', s_ilist, r_ilist, 250, rule='bond dimension above one'),
]
