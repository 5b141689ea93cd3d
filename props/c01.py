"""C01: centre moves keep the state vector; canonical form afterwards."""
from spec import Facet, need, Skip
import gen

RULE = 'A case counts as non-trivial when its facet\'s rule holds on the constructed state.'
ASSUMPTIONS = ['state sizes up to the bounds of harness/gen.py; tensor entries Gaussian/sparse/integer from a seeded generator']


def load():
    global q, np, L
    import numpy as np
    import qlib as q
    L = q.lib()


# ---------------------------------------------------------------- canonical states, histories of moves
def s_moves(st):
    return st.tuples(gen.state(st), st.lists(st.integers(0, 12), min_size=1, max_size=8),
                     st.sampled_from(['qr', 'svd', 'svdarg'])).map(list)


def r_moves(case):
    sc, moves, mode = case
    m = q.mk(sc)
    d = sc['d']
    n = len(d)
    x0 = q.vec(m)
    q.check_canonical(m, 'start')
    if mode == 'svd':
        m._schmidt_thresh = 2e-15
    D0 = q.bonds(m)
    p0 = m.pos
    moved = 0
    for p in moves:
        p = p % (n + 1)
        moved += p != m.pos
        if mode == 'svdarg':
            m.position(p, schmidt_thresh=2e-15)
        else:
            m.position(p)
        need(m.pos == p, 'position({}) left the centre at bond {}', p, m.pos)
        q.check_shapes(m, d, 'position(%d)' % p)
        q.need_close(q.vec(m), x0, 'state vector after position(%d)' % p)
        q.check_canonical(m, 'after position(%d)' % p)
        need(all(a <= b for a, b in zip(q.bonds(m), D0)), 'bond dimensions grew from {} to {}', D0, q.bonds(m))
        D0 = q.bonds(m)
    return moved >= 2 and max(m.D) > 1, '%s|%s|%s' % (mode, sc['k'], 'complex' if sc['c'] else 'real')


# ---------------------------------------------------------------- arbitrary (not canonical) tensors
def s_raw(st):
    @st.composite
    def f(draw):
        sc = draw(gen.state(st, moves=False))
        n = len(sc['d'])
        nonopen = draw(st.booleans())
        ends = [draw(st.integers(1, 4)), draw(st.integers(1, 4))] if nonopen else [1, 1]
        if sc['k'] == 'ghz':
            sc['k'] = 'rand'
        p0 = draw(st.integers(0, n))
        sc.update(ends=ends, p0=p0, scale=draw(st.sampled_from([1.0, 1e-4, 1e3])), matkind=draw(st.sampled_from(['diag', 'full'])))
        return [sc, draw(st.lists(st.integers(0, n), min_size=1, max_size=7))]
    return f()


def r_raw(case):
    sc, moves = case
    d = sc['d']
    n = len(d)
    b = [sc['ends'][0]] + list(sc['D']) + [sc['ends'][1]]
    c = sc['c']
    r = q.rng('raw', sc['s'])
    ts = []
    for i in range(n):
        shape = (b[i], b[i + 1], d[i])
        t = q.gauss(r, shape, c)
        if sc['k'] == 'sparse':
            t = t * (r.rand(*shape) < 0.5)
        elif sc['k'] == 'int':
            t = np.round(t)
        elif sc['k'] == 'decay':
            t = t * (10.0 ** (-0.7 * np.arange(b[i + 1])))[None, :, None]
        elif sc['k'] == 'low':
            t[:, :, :] = t[:, :1, :]
        ts.append(t * sc['scale'] ** (1.0 / n))
    m = L.MPS(ts)
    m._Z = q.num(sc['z'])
    p0 = sc['p0']
    m._position = p0
    db = b[p0]
    m._mat = np.diag(r.rand(db) + 0.1) if sc['matkind'] == 'diag' else q.gauss(r, (db, db), c)
    x0 = q.vec(m)
    nn = np.prod([np.linalg.norm(t) for t in ts])
    if not np.linalg.norm(x0) > 1e-6 * nn * np.linalg.norm(m._mat) * abs(m._Z):
        raise Skip('zero state')
    lo = hi = p0
    D0 = q.bonds(m)
    for p in moves:
        if p == m.pos:
            m.position(p)
            continue
        m.position(p)
        q.check_shapes(m, d, 'position(%d)' % p)
        q.need_close(q.vec(m), x0, 'state vector after position(%d)' % p)
        lo, hi = min(lo, p), max(hi, p)
        need(abs(np.linalg.norm(m._mat) - 1) < 1e-9, 'bond matrix norm {} after position({})', np.linalg.norm(m._mat), p)
        for k in range(lo, hi):      # sites the centre has crossed
            res = q.is_left(m._tensors[k]) if k < p else q.is_right(m._tensors[k])
            need(res < 1e-8, 'site {} crossed by the centre is not orthonormal: {:.2e} (centre {})', k, res, p)
        if lo == 0 and hi == n:
            q.check_canonical(m, 'after crossing all sites')
        need(all(a <= bb for a, bb in zip(q.bonds(m), D0)), 'bond dimensions grew from {} to {}', D0, q.bonds(m))
        D0 = q.bonds(m)
    nt = hi - lo >= 2
    return nt, '%s|%s' % (sc['k'], 'open' if sc['ends'] == [1, 1] else 'nonopen')


# ---------------------------------------------------------------- absorbing the centre matrix / connector, tensor(), tolist()
def s_absorb(st):
    return st.tuples(gen.state(st), st.integers(0, 12), st.sampled_from(['absorb+', 'absorb-', 'tolist', 'tensor', 'tensorclear'])).map(list)


def r_absorb(case):
    sc, p, what = case
    m = q.mk(sc)
    n = len(sc['d'])
    p %= n + 1
    m.position(p)
    x0 = q.vec(m)
    tl = m.tolist()
    q.need_close(q.vec_list(tl) * m._Z, x0, 'tolist() times norm factor')
    if what == 'tolist':
        for t in tl:
            t *= 0
        q.need_close(q.vec(m), x0, 'state after changing the list returned by tolist()')
    elif what in ('absorb+', 'absorb-'):
        m.__absorbCenterMatrix__(1 if what == 'absorb+' else -1)
        q.need_close(q.vec(m), x0, 'state after absorbing the centre matrix')
        need(np.linalg.norm(m._mat - np.eye(m._mat.shape[0])) < 1e-12, 'centre matrix is not the identity after being absorbed')
        m.position(0)
        m.position(n)
        q.need_close(q.vec(m), x0, 'state after absorbing the centre matrix and a sweep')
        q.check_canonical(m, 'after absorbing the centre matrix and a sweep')
    else:
        for site in [s for s in (p - 1, p) if 0 <= s < n]:
            mm = q.mk(sc)
            mm.position(p)
            t = mm.tensor(site, clear=(what == 'tensorclear'))
            tl = [np.copy(a) for a in mm.tensors]
            tl[site] = t
            q.need_close(q.vec_list(tl) * mm._Z, x0, 'chain with tensor(%d)' % site)
            if what == 'tensorclear':
                k = mm._mat.shape[0]
                need(mm._mat.shape == (k, k) and np.linalg.norm(mm._mat - np.eye(k) / np.sqrt(k)) < 1e-12,
                     'tensor(clear=True) left a centre matrix that is not the normalised identity')
            else:
                q.need_close(q.vec(mm), x0, 'state after tensor(%d)' % site)
    return max(m.D) > 1, what


FACETS = [
    Facet('moves', s_moves, r_moves, 1600, rule='at least two real centre moves and a bond dimension above 1'),
    Facet('raw', s_raw, r_raw, 1200, rule='the centre crossed at least two sites'),
    Facet('absorb', s_absorb, r_absorb, 600, rule='a bond dimension above 1'),
]
