"""C18: ncon is the Einstein summation; ill-formed networks are refused."""
from spec import Facet, Violation, Skip, need
import gen

RULE = 'at least two tensors joined by a contracted index of dimension > 1'
ASSUMPTIONS = ['labels are nonzero integers as documented; label 0 is neither contracted nor free and is not generated',
               'an order that leaves out some contracted index may be refused or give the Einstein sum']


def load():
    global q, np, ncon
    import numpy as np, qlib as q
    from lib.ncon import ncon as _n
    ncon = _n if callable(_n) else _n.ncon


def net(st, pmax=5):
    @st.composite
    def f(draw):
        p = draw(st.integers(1, pmax))
        sizes = st.sampled_from([1, 2, 2, 3, 3, 4])
        legs = [[] for _ in range(p)]
        dims = {}
        total = 1
        ne = draw(st.integers(0, min(7, 2 * p + 1)))
        labels = draw(st.lists(st.integers(1, 40), min_size=ne, max_size=ne, unique=True))
        if draw(st.booleans()):
            labels = list(range(1, ne + 1))
        for e in range(ne):
            i, j = draw(st.integers(0, p - 1)), draw(st.integers(0, p - 1))
            dm = draw(sizes)
            if total * dm > 3000:
                dm = 1
            total *= dm
            dims[labels[e]] = dm
            legs[i].append(labels[e])
            legs[j].append(labels[e])
        nf = draw(st.integers(0, 5))
        fl = draw(st.lists(st.integers(-30, -1), min_size=nf, max_size=nf, unique=True))
        if draw(st.booleans()):
            fl = [-k for k in range(1, nf + 1)]
        for l in fl:
            dm = draw(sizes)
            if total * dm > 3000:
                dm = 1
            total *= dm
            dims[l] = dm
            legs[draw(st.integers(0, p - 1))].append(l)
        v = [draw(st.permutations(x)) if len(x) > 1 else x for x in legs]
        order = draw(st.one_of(st.none(), st.permutations(labels))) if labels else None
        forder = draw(st.one_of(st.none(), st.permutations(fl))) if fl else None
        return {'v': v, 'dims': {str(k): x for k, x in dims.items()}, 'order': order, 'forder': forder,
                's': draw(gen.seeds(st)), 'dt': draw(st.sampled_from(['r', 'c', 'mix', 'i'])),
                'style': draw(st.sampled_from(['list', 'tuple', 'flat'])), 'chk': draw(st.sampled_from([True, True, False])),
                'lay': draw(st.sampled_from(['C', 'F', 'view']))}
    return f()


def arrays(case):
    r = q.rng('ncon', case['s'])
    out = []
    for i, x in enumerate(case['v']):
        sh = tuple(case['dims'][str(l)] for l in x)
        dt = case['dt']
        if dt == 'i':
            a = np.array(r.randint(-3, 4, size=sh))
        else:
            a = np.array(q.gauss(r, sh, dt == 'c' or (dt == 'mix' and i % 2)))
        if case['lay'] == 'F' and a.ndim:
            a = np.asfortranarray(a)
        elif case['lay'] == 'view' and a.ndim:
            a = np.repeat(a, 2, axis=0)[::2]
        out.append(a)
    return out


def einstein(AA, v, forder):
    """direct summation with einsum, all operands at once"""
    ids = {}
    for x in v:
        for l in x:
            ids.setdefault(l, len(ids))
    args = []
    for a, x in zip(AA, v):
        args += [a, [ids[l] for l in x]]
    return np.einsum(*(args + [[ids[l] for l in forder]]))


def free(v):
    return sorted([l for x in v for l in x if l < 0], reverse=True)


def call(case, AA, v, **kw):
    if case['style'] == 'flat' and len(AA) == 1 and len(v[0]) > 0:
        return ncon(AA[0], v[0], **kw)
    if case['style'] == 'tuple':
        return ncon(tuple(AA), tuple(tuple(x) for x in v), **kw)
    return ncon(AA, v, **kw)


def run_ok(case):
    AA = arrays(case)
    v = [list(x) for x in case['v']]
    order = None if case['order'] is None else list(case['order'])
    forder = None if case['forder'] is None else list(case['forder'])
    keepA = [a.copy() for a in AA]
    lenA = len(AA)
    ref = einstein(AA, v, forder if forder is not None else free(v))
    kw = {}
    if order is not None:
        kw['order'] = order
    if forder is not None:
        kw['forder'] = forder
    if not case['chk']:
        kw['check_indices'] = False
    res = call(case, AA, v, **kw)
    need(np.shape(res) == ref.shape, 'result has shape {} instead of {}', np.shape(res), ref.shape)
    scale = einstein([np.abs(a) for a in keepA], case['v'], forder if forder is not None else free(v))
    need(np.all(np.abs(np.asarray(res) - ref) <= 1e-11 * (np.abs(scale) + 1e-300)), 'result differs from the Einstein sum: {} instead of {}',
         np.asarray(res).ravel()[:4], ref.ravel()[:4])
    need(len(AA) == lenA and all(a.shape == b.shape and np.array_equal(a, b) for a, b in zip(AA, keepA)), 'an input tensor was modified')
    need(v == [list(x) for x in case['v']], 'the index lists were modified: {}', v)
    need(order == case['order'] or (order is not None and list(order) == list(case['order'])), 'the contraction order was modified: {} -> {}', case['order'], order)
    need(forder == case['forder'] or list(forder) == list(case['forder']), 'the final order was modified')
    nt = any(l > 0 and case['dims'][str(l)] > 1 and sum(l in x for x in v) == 2 for x in v for l in x)
    tags = []
    if any(x.count(l) == 2 for x in v for l in x):
        tags.append('trace')
    if not free(v):
        tags.append('scalar')
    return nt, '|'.join(tags)


def run_order(case):
    """metamorphic: every contraction order and every final order gives the same tensor up to the transposition"""
    AA = arrays(case)
    v = [list(x) for x in case['v']]
    fr = free(v)
    base = np.asarray(ncon(AA, [list(x) for x in v]))
    scale = np.linalg.norm(einstein([np.abs(a) for a in AA], v, fr)) + 1e-300
    labels = sorted(set(l for x in v for l in x if l > 0))
    r = q.rng('ord', case['s'])
    for _ in range(3):
        o = [labels[i] for i in r.permutation(len(labels))] if labels else None
        p = r.permutation(len(fr))
        fo = [fr[i] for i in p] if fr else None
        res = np.asarray(ncon(AA, [list(x) for x in v], order=o, forder=fo))
        exp = np.transpose(base, tuple(p)) if fr else base
        need(res.shape == exp.shape and np.linalg.norm(res - exp) <= 1e-11 * scale, 'order {} forder {}: differs from the default order', o, fo)
    # relabelling does not matter
    m = {l: int(k) for l, k in zip(labels, r.permutation(100)[:len(labels)] + 1)}
    res = np.asarray(ncon(AA, [[m.get(l, l) for l in x] for x in v]))
    need(res.shape == base.shape and np.linalg.norm(res - base) <= 1e-11 * scale, 'result depends on the names of the contracted indices')
    # linear in the first tensor
    res = np.asarray(ncon([2.5 * AA[0]] + AA[1:], v))
    need(np.linalg.norm(res - 2.5 * base) <= 1e-11 * scale, 'not linear in its first tensor')
    return len(labels) >= 2 and len(AA) >= 2


BAD = ['dim', 'once', 'thrice', 'free2', 'count', 'legs_more', 'legs_less', 'order_unknown', 'forder_unknown', 'forder_missing', 'extra_tensor']


def bad_strategy(st):
    return st.tuples(net(st, 4), st.sampled_from(BAD), st.integers(0, 30), st.integers(0, 30)).map(lambda t: dict(t[0], bad=t[1], a=t[2], b=t[3], chk=True))


def run_bad(case):
    """one defect is planted into a valid network: ncon has to raise"""
    AA = arrays(case)
    v = [list(x) for x in case['v']]
    order = case['order']
    forder = case['forder']
    kind = case['bad']
    a, b = case['a'], case['b']
    labels = sorted(set(l for x in v for l in x if l > 0))
    fr = free(v)
    new = max([abs(l) for x in v for l in x] + [0]) + 1
    i = a % len(AA)
    if kind == 'dim':
        if not labels:
            raise Skip('nothing to contract')
        l = labels[a % len(labels)]
        k = [n for n, x in enumerate(v) if l in x][0]
        ax = v[k].index(l)
        AA[k] = np.concatenate([AA[k], np.take(AA[k], [0], axis=ax)], axis=ax)
    elif kind == 'once':
        v[i].insert(b % (len(v[i]) + 1), new)
        ax = v[i].index(new)
        AA[i] = np.repeat(np.expand_dims(AA[i], ax), 1 + b % 2, axis=ax)
        order = None if order is None else list(order) + [new]
    elif kind == 'thrice':
        if not labels:
            raise Skip('nothing to contract')
        l = labels[a % len(labels)]
        dm = case['dims'][str(l)]
        k = b % len(AA)
        v[k].append(l)
        AA[k] = np.repeat(AA[k][..., None], dm, axis=AA[k].ndim)
    elif kind == 'free2':
        if not fr:
            raise Skip('no free index')
        l = fr[a % len(fr)]
        dm = case['dims'][str(l)]
        k = b % len(AA)
        v[k].append(l)
        AA[k] = np.repeat(AA[k][..., None], dm, axis=AA[k].ndim)
    elif kind == 'count':
        v.append([-new])
    elif kind == 'extra_tensor':
        AA.append(np.ones((2,)))
    elif kind == 'legs_more':
        v[i] = v[i] + [-new]
    elif kind == 'legs_less':
        AA[i] = AA[i][..., None]
    elif kind == 'order_unknown':
        order = labels + [new]
    elif kind == 'forder_unknown':
        forder = fr + [-new]
    elif kind == 'forder_missing':
        if len(fr) < 1:
            raise Skip('no free index')
        forder = [l for k, l in enumerate(fr) if k != a % len(fr)]
    try:
        res = ncon(AA, v, order=order, forder=forder)
    except Exception as e:
        need(isinstance(e, (ValueError, RuntimeError, IndexError, AttributeError, TypeError)), 'unexpected {}', type(e))
        return True, kind
    raise Violation('ill-formed network (%s) accepted: v=%s order=%s forder=%s gave a result of shape %s' % (kind, v, order, forder, np.shape(res)))


FACETS = [
    Facet('einsum', net, run_ok, 6000, rule='two tensors share a contracted index of dimension > 1'),
    Facet('metamorphic', net, run_order, 2000, rule='two tensors and two contracted indices'),
    Facet('refuse', bad_strategy, run_bad, 3000, rule='a defect was planted'),
]
