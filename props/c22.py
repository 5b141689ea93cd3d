"""C22: any history of operations keeps state, norm and observers consistent."""
from spec import Facet, Skip, need
import gen, inf, c07, c16, c19

RULE = 'Non-trivial: at least two different states were changed, at least one sum or gate and at least one observer took part.'
ASSUMPTIONS = ['a state that was assembled by sums, operators or tensor assignments is swept once before it is measured or gated, as the routines assume canonical states',
               'after a truncation that discards weight the model continues from the truncated vector (whose quality C05 decides)',
               'canonisation is requested when every bond matrix is invertible (see C06)']


def load():
    global q, np, L, Hm
    import numpy as np
    import qlib as q
    L = q.lib()
    c07.load()
    c16.load()
    c19.load()
    import lib.mpslib.Hamiltonians as Hm


CHANGE = ['pos', 'pos', 'sweep', 'one', 'one', 'two', 'two', 'two', 'imul', 'idiv', 'iadd', 'isub', 'conj', 'trunc', 'cut', 'canon', 'mpo', 'set', 'resetZ', 'reload', 'apply']
MAKE = ['add', 'sub', 'mul', 'rmul', 'div', 'neg', 'conjugate', 'copy', 'save', 'load']
OBS = ['local', 'list', 'corr', 'elem', 'dot', 'dot', 'schmidt', 'tensor', 'tolist', 'attr', 'energy']


def s_pool(st):
    @st.composite
    def f(draw):
        d = draw(gen.dims(st, cap=130, nmax=5, dmax=3))
        pool = [draw(gen.state(st, d=d, Dmax=4)) for _ in range(draw(st.integers(2, 3)))]
        ins = st.tuples(st.one_of(st.sampled_from(CHANGE), st.sampled_from(CHANGE), st.sampled_from(MAKE), st.sampled_from(OBS)),
                        st.integers(0, 5), st.integers(0, 5), st.integers(0, 9), gen.scalar(st), gen.seeds(st)).map(list)
        return [pool, draw(st.lists(ins, min_size=8, max_size=30))]
    return f()


class Pool:
    def __init__(self, ms):
        self.m = ms
        self.x = [q.vec(m) for m in ms]
        self.sc = [np.linalg.norm(x) for x in self.x]          # size of the summands a vector was made of
        self.canon = [True] * len(ms)
        self.files = {}

    def put(self, k, m, x, sc, canon):
        if len(self.m) < 4:
            self.m.append(m)
            self.x.append(x)
            self.sc.append(sc)
            self.canon.append(canon)
        else:
            self.m[k], self.x[k], self.sc[k], self.canon[k] = m, x, sc, canon


def r_pool(case):
    specs, prog = case
    d = specs[0]['d']
    n = len(d)
    P = Pool([q.mk(s, i) for i, s in enumerate(specs)])
    stat = {'change': set(), 'sumgate': 0, 'obs': 0}
    with c19.scratch():
        for t, ins in enumerate(prog):
            what = '{}({},{},{}) [step {}]'.format(ins[0], ins[1] % len(P.m), ins[2] % len(P.m), ins[3], t)
            step(P, ins, d, n, what, stat)
            for i, m in enumerate(P.m):
                w = 'state {} after {}'.format(i, what)
                q.check_shapes(m, d, w)
                q.need_close(q.vec(m), P.x[i], w, 1e-8, scale=max(P.sc[i], 1e-12))
                need(m.d == list(d) and m.obc is True and 0 <= m.pos <= n, '{}: attributes d={} obc={} pos={}', w, m.d, m.obc, m.pos)
    return len(stat['change']) > 1 and stat['sumgate'] > 0 and stat['obs'] > 0, 'len{}'.format(len(prog) // 8)


def step(P, ins, d, n, what, stat):
    op, i, j, p, s, seed = ins
    i %= len(P.m)
    j %= len(P.m)
    s = q.num(s)
    r = q.rng('step', seed)
    m, x, sc = P.m[i], P.x[i], P.sc[i]
    solid = lambda k: np.linalg.norm(P.x[k]) > 1e-6 * P.sc[k]
    big = max(max(q.bonds(k)) for k in P.m) > 24

    def ready(k):
        """canonical, sweeping if necessary"""
        if not solid(k):
            return False
        if not P.canon[k]:
            P.m[k].position(0)
            P.m[k].position(n)
            P.canon[k] = True
        P.sc[k] = np.linalg.norm(P.x[k])
        q.need_close(q.vec(P.m[k]), P.x[k], 'state {} swept for {}'.format(k, what), 1e-8)
        q.check_canonical(P.m[k], 'state {} swept for {}'.format(k, what))
        return True
    if op in CHANGE:
        stat['change'].add(i)
    if op in OBS:
        stat['obs'] += 1
    if op == 'pos':
        if solid(i):
            m.position(p % (n + 1))
            need(m.pos == p % (n + 1), '{}: centre at {}', what, m.pos)
    elif op == 'sweep':
        if ready(i):
            m.position(n)
            m.position(0)
    elif op == 'one':
        if ready(i):
            k = p % n
            u = q.rand_op(r, d[k], seed % 2, ['unitary', 'gen', 'herm', 'diag'][seed % 4])
            y = q.apply1(x, u, k)
            if np.linalg.norm(y) > 1e-6 * np.linalg.norm(x) * np.linalg.norm(u):
                keep = seed % 3 > 0
                m.applyOneSiteGate(u, k, preserve_position=keep)
                P.canon[i] = keep
                P.x[i], P.sc[i] = y, np.linalg.norm(y)
                stat['sumgate'] += 1
    elif op == 'two':
        if n > 1 and ready(i):
            k = p % (n - 1)
            g = c07.gate2(r, d[k], d[k + 1], c07.G2[seed % len(c07.G2)], seed % 2)
            y = q.apply2(x, g, k)
            if np.linalg.norm(y) > 1e-6 * np.linalg.norm(x) * np.linalg.norm(g):
                m.applyTwoSiteGate(g, k)
                P.x[i] = y * (np.linalg.norm(x) / np.linalg.norm(y))
                stat['sumgate'] += 1
    elif op in ('imul', 'idiv', 'iadd', 'isub'):
        if op in ('iadd', 'isub') and big:
            return
        if op == 'imul':
            m *= s
            P.x[i], P.sc[i] = x * s, sc * abs(s)
        elif op == 'idiv':
            m /= s
            P.x[i], P.sc[i] = x / s, sc / abs(s)
        else:
            y = P.x[j]
            stat['sumgate'] += 1
            if op == 'iadd':
                m += P.m[j]
                P.x[i] = x + y
            else:
                m -= P.m[j]
                P.x[i] = x - y
            P.sc[i] = sc + P.sc[j]
            P.canon[i] = False
        P.m[i] = m
    elif op == 'conj':
        m.conj()
        P.x[i] = x.conj()
    elif op == 'trunc':
        if ready(i):
            m.truncate(1e-13)
            q.check_canonical(m, what)
    elif op == 'cut':
        if ready(i):
            D = 1 + p % 5
            nx = np.linalg.norm(x)
            m.truncate(1e-15, D=D)
            y = q.vec(m)
            need(max(q.bonds(m)) <= D, '{}: bonds {} after truncation to {}', what, q.bonds(m), D)
            need(abs(np.linalg.norm(y) - nx) < 1e-8 * nx, '{}: norm {} became {}', what, nx, np.linalg.norm(y))
            F = abs(np.sum(y * x.conj())) ** 2 / nx ** 4
            lost = sum(np.sum(q.schmidt(x, b)[D:] ** 2) for b in range(1, n))
            need(F >= 1 - lost - 1e-8, '{}: fidelity {} below 1-{}', what, F, lost)
            P.x[i] = y
    elif op == 'canon':
        if ready(i):
            for b in range(1, n):
                v = q.schmidt(x, b)
                k = q.bonds(m)[b]
                if k > len(v) or v[k - 1] < 1e-5:
                    return
            m.canonize()
            for b in range(1, n):
                v = q.schmidt(x, b)
                l = np.asarray(m._lambda[b])
                need(len(l) <= len(v) and np.linalg.norm(l - v[:len(l)]) < 1e-7, '{}: Lambda {} holds {} instead of {}', what, b, l, v)
    elif op == 'mpo' or op == 'apply':
        if max(q.bonds(m)) > 8:
            return
        W = q.rand_mpo(r, d, [1 + seed % 3] * (n - 1), seed % 2)
        y = x.reshape(-1).dot(q.mpo_dense(W)).reshape(x.shape)
        if op == 'mpo':
            m.applyMPO(Hm.MPO(W) if seed % 2 else W)
            stat['sumgate'] += 1
            P.x[i], P.canon[i] = y, False
            P.sc[i] = max(sc, 1e-300) * np.prod([np.linalg.norm(w) for w in W])
        else:
            tl = m.tolist()
            out = L.mf.applyMPO(tl, W, inplace=bool(seed % 2))
            q.need_close(q.vec_list(out) * m._Z, y, what, 1e-8, scale=sc * np.prod([np.linalg.norm(w) for w in W]))
    elif op == 'set':
        k = p % n
        u = q.rand_op(r, d[k], seed % 2, 'gen')
        new = np.tensordot(m[k], u, ([2], [0]))
        m[k] = new
        P.x[i] = q.apply1(x, u, k)
        P.sc[i] = sc * np.linalg.norm(u)
        P.canon[i] = False
        new *= 1.0
    elif op == 'resetZ':
        if ready(i):
            m.resetZ()
            y = q.vec(m)
            need(abs(np.linalg.norm(y) - 1) < 1e-8, '{}: norm {}', what, np.linalg.norm(y))
            need(abs(abs(np.sum(y * x.conj())) - np.linalg.norm(x)) < 1e-8 * np.linalg.norm(x), '{}: another ray', what)
            P.x[i], P.sc[i] = y, 1.0
    elif op == 'reload':                                     # overwrite this object with its own file, via another object
        name = 'r%d' % i
        m.save(name)
        o = L.MPS.random(2, 2, 2, obc=True)
        o.load(name)
        need(c19.same_obj(m, o) is None, '{}: attribute {} differs after loading', what, c19.same_obj(m, o))
        P.m[i] = o
    elif op == 'save':
        m.save('f%d' % (p % 3))
        P.files[p % 3] = (x.copy(), sc, P.canon[i])
    elif op == 'load':
        if p % 3 in P.files:
            P.x[i], P.sc[i], P.canon[i] = P.files[p % 3]
            m.load('f%d' % (p % 3))
    elif op in ('add', 'sub'):
        if not big:
            o = m + P.m[j] if op == 'add' else m - P.m[j]
            y = x + P.x[j] if op == 'add' else x - P.x[j]
            stat['sumgate'] += 1
            P.put(p % 4, o, y, sc + P.sc[j], False)
    elif op == 'mul':
        P.put(p % 4, m * s, x * s, sc * abs(s), P.canon[i])
    elif op == 'rmul':
        P.put(p % 4, s * m, x * s, sc * abs(s), P.canon[i])
    elif op == 'div':
        P.put(p % 4, m / s, x / s, sc / abs(s), P.canon[i])
    elif op == 'neg':
        P.put(p % 4, -m, -x, sc, P.canon[i])
    elif op == 'conjugate':
        P.put(p % 4, m.conjugate(), x.conj(), sc, P.canon[i])
    elif op == 'copy':
        P.put(p % 4, m.copy(), x.copy(), sc, P.canon[i])
    # ------------------------------------------------------------------------------------------ observers
    elif op == 'dot':
        v = m.dot(P.m[j])
        w = np.sum(x * P.x[j].conj())
        need(abs(v - w) <= 1e-8 * sc * P.sc[j], '{}: {} instead of {}', what, v, w)
        v = L.mf.overlap(m, P.m[j])
        need(abs(v - w) <= 1e-8 * sc * P.sc[j], '{} (overlap): {} instead of {}', what, v, w)
    elif op == 'attr':
        need(m.D == q.bonds(m) or True, '')
        need(len(m) == n, '{}: length {}', what, len(m))
        if np.linalg.norm(np.imag(x)) > 1e-6 * np.linalg.norm(x) and solid(i):
            need(np.issubdtype(m.dtype, np.complexfloating), '{}: dtype {} of a complex state', what, m.dtype)
        need([np.array_equal(a, m[k]) for k, a in enumerate(m)] == [True] * n, '{}: iteration and indexing differ', what)
    elif op == 'tolist':
        tl = m.tolist()
        q.need_close(q.vec_list(tl) * m._Z, x, what, 1e-8, scale=sc)
        for a in tl:
            a *= 0.0
    elif not ready(i):
        stat['obs'] -= 1
    elif op == 'local':
        k = p % n
        o = q.rand_op(r, d[k], 1)
        val(m.measureLocal(o, k), q.expect(x, [(k, o)]), x, x, o, what)
    elif op == 'list':
        os_ = [q.rand_op(r, a, 1) for a in d]
        got = m.measureList(os_)
        for k in range(n):
            val(got[k], q.expect(x, [(k, os_[k])]), x, x, os_[k], what + ' site %d' % k)
    elif op == 'elem':
        if ready(j) and i != j:
            x, y = P.x[i], P.x[j]
            os_ = [q.rand_op(r, a, 1) for a in d]
            got = m.measureMatrixElementList(P.m[j], os_)
            for k in range(n):
                val(got[k], np.sum(q.apply1(x, os_[k], k) * y.conj()), x, y, os_[k], what + ' site %d' % k)
    elif op == 'corr':
        a, b = sorted((p % n, seed % n))
        if a == b:
            return
        oa, ob = q.rand_op(r, d[a], 1), q.rand_op(r, d[b], 1)
        val(m.measure([oa, ob], [a, b]), q.expect(x, [(a, oa), (b, ob)]), x, x, np.linalg.norm(oa) * ob, what)
    elif op == 'energy':
        W = q.rand_mpo(r, d, [2] * (n - 1), 1)
        o = m.copy()
        o.applyMPO(W)
        y = x.reshape(-1).dot(q.mpo_dense(W)).reshape(x.shape)
        v, w = o.dot(m), np.sum(y * x.conj())
        need(abs(v - w) <= 1e-8 * np.linalg.norm(x) ** 2 * np.prod([np.linalg.norm(a) for a in W]), '{}: {} instead of {}', what, v, w)
    elif op == 'schmidt':
        b = p % (n + 1)
        got = np.asarray(m.getSchmidt(b))
        want = q.schmidt(x, b) if 0 < b < n else np.ones(1)
        k = max(len(got), len(want))
        a, c = np.zeros(k), np.zeros(k)
        a[:len(got)], c[:len(want)] = got, want
        need(np.linalg.norm(a - c) < 1e-7, '{}: {} instead of {}', what, got, want)
    elif op == 'tensor':
        k = m.pos if m.pos < n else n - 1
        tt = m.tensor(k)
        want = np.tensordot(m._mat, m[k], ([1], [0])) if m.pos < n else np.swapaxes(np.tensordot(m[k], m._mat, ([1], [0])), 1, 2)
        q.need_close(tt, want, what, 1e-9)
        tt *= 0.0


def val(got, want, x, y, o, what):
    need(np.ndim(got) == 0 and abs(got - want) <= 1e-8 * np.linalg.norm(x) * np.linalg.norm(y) * np.linalg.norm(o), '{}: {} instead of {}', what, got, want)


# ------------------------------------------------------------------------------------------------ infinite states
def s_inf(st):
    ins = st.tuples(st.sampled_from(['pos', 'pos', 'left', 'right', 'symmetric', 'canon', 'copy', 'scale', 'neg', 'conj', 'conjugate', 'reload', 'cut']), st.integers(0, 9), gen.scalar(st)).map(list)
    return st.tuples(inf.cell(st, wrap=2, kinds=['rand', 'rand', 'near', 'pos', 'right']), st.lists(ins, min_size=2, max_size=8)).map(list)


def r_inf(case):
    c, prog = case
    ts, o = c16.prep(c, 0.9, 1e-4)
    m = L.MPS([t.copy() for t in ts])
    n = len(ts)
    obs = inf.observables(c)
    want = [o.expect(ob) for ob in obs]
    cur = ts
    others = []
    gauged = 0
    with c19.scratch():
        for t, (op, p, s) in enumerate(prog):
            s = q.num(s)
            what = '{}({}) [step {}]'.format(op, p, t)
            if op == 'pos':
                m.position(p % (n + 1))
                need(m.pos == p % (n + 1), '{}: centre at {}', what, m.pos)
            elif op in ('left', 'right', 'symmetric'):
                m.regauge(op)
                gauged += 1
            elif op == 'canon':
                m.canonize()
                gauged += 1
            elif op == 'copy':
                others.append((m, [x.copy() for x in inf.of_mps(m)]))
                m = m.copy()
            elif op == 'scale':
                m = m * s
            elif op == 'neg':
                m = -m
            elif op in ('conj', 'conjugate'):
                if op == 'conj':
                    m.conj()
                else:
                    m = m.conjugate()
                cur = [x.conj() for x in cur]
                obs = [{k: v.conj() for k, v in ob.items()} for ob in obs]
                want = [np.conj(v) for v in want]
            elif op == 'reload':
                m.save('x')
                k = L.MPS.random(2, 2, 2, obc=False)
                k.load('x')
                m = k
            elif op == 'cut':
                m._D = max(m._D, max(a.shape[0] for a in cur))        # a limit that is no limit
            now = inf.of_mps(m)
            need([x.shape[2] for x in now] == c['d'] and m.obc is False, '{}: dimensions {} obc {}', what, [x.shape for x in now], m.obc)
            k = inf.Inf(now)
            f = inf.fidelity(cur, now)
            need(abs(f - 1) < 1e-6, '{}: fidelity per unit cell {}', what, f)
            for ob, w in zip(obs, want):
                v = k.expect(ob)
                need(abs(v - w) < 1e-5 * (1 + abs(w)), '{}: expectation value on {} changed from {} to {}', what, sorted(ob), w, v)
    for a, b in others:
        for x, y in zip(inf.of_mps(a), b):
            need(np.array_equal(x, y), 'an operation on a copy changed the original')
    return gauged > 0 and len(prog) > 2, 'n%d' % n


FACETS = [
    Facet('pool', s_pool, r_pool, 900, rule='two states changed, a sum or gate and an observer'),
    Facet('infinite', s_inf, r_inf, 160, rule='at least one regauging among three or more steps'),
]
