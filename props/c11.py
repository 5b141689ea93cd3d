"""C11: environments and effective Hamiltonians agree with the full contraction."""
from spec import Facet, Skip, need
import gen, c10

RULE = 'Non-trivial: at least one environment bond and one operator bond of dimension above 1, so that every index position matters.'
ASSUMPTIONS = ['operators are indexed [left, right, in, out], environments [ket bond, bra bond, operator bond]',
               'HAproductZeroSite and HAproductBond take square bond matrices (their documented use); ket and bra bonds differ everywhere else']


def load():
    global q, np, L, E, Hm
    import numpy as np
    import qlib as q
    L = q.lib()
    c10.load()
    import lib.mpslib.engines as E
    import lib.mpslib.Hamiltonians as Hm


def s_layer(st):
    b = st.integers(1, 4)
    return st.tuples(st.lists(b, min_size=10, max_size=10), st.sampled_from([[0] * 5, [1] * 5, [0, 1, 0, 1, 0], [1, 0, 0, 0, 1]]), gen.seeds(st)).map(list)


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b)


def r_layer(case):
    (Dk, Dk2, Db, Db2, M1, M2, di, do, M3, d2), c, s = case
    r = q.rng('layer', s)
    mf = L.mf
    A, B, W = q.gauss(r, (Dk, Dk2, di), c[0]), q.gauss(r, (Db, Db2, do), c[1]), q.gauss(r, (M1, M2, di, do), c[2])
    Lx, Rx = q.gauss(r, (Dk, Db, M1), c[3]), q.gauss(r, (Dk2, Db2, M2), c[4])
    keep = [x.copy() for x in (A, B, W, Lx, Rx)]
    es = lambda *a: np.einsum(*a, optimize=True)
    q.need_close(mf.addLayer(Lx, A, W, B, 1), es('abm,axi,mnij,byj->xyn', Lx, A, W, B.conj()), 'addLayer to the right')
    q.need_close(mf.addLayer(Rx, A, W, B, -1), es('xyn,axi,mnij,byj->abm', Rx, A, W, B.conj()), 'addLayer to the left')
    B2 = q.gauss(r, (Db, Db2, di), c[1])
    q.need_close(mf.addELayer(Lx, A, B2, 1), es('abm,axi,byi->xym', Lx, A, B2.conj()), 'addELayer to the right')
    q.need_close(mf.addELayer(Rx, A, B2, -1), es('xyn,axi,byi->abn', Rx, A, B2.conj()), 'addELayer to the left')
    # boundary layers
    W0 = q.gauss(r, (1, M2, di, do), c[2])
    W1 = q.gauss(r, (M1, 1, di, do), c[2])
    x = Lx[:, :, 0]
    q.need_close(mf.initializeLayer(A, x, B, W0, 1), es('ab,axi,nij,byj->xyn', x, A, W0[0], B.conj()), 'initializeLayer from the left')
    x = Rx[:, :, 0]
    q.need_close(mf.initializeLayer(A, x, B, W1, -1), es('xy,axi,mij,byj->abm', x, A, W1[:, 0], B.conj()), 'initializeLayer from the right')
    # effective operators
    ref = es('abm,axi,mnij,xyn->byj', Lx, A, W, Rx)
    q.need_close(mf.contractionH(Lx, A, W, Rx), ref, 'contractionH')
    q.need_close(mf.HAproductSingleSiteMPS(Lx, W, Rx, A), ref, 'HAproductSingleSiteMPS')
    Ls, Rs, Ws = q.gauss(r, (Dk, Dk, M1), c[3]), q.gauss(r, (Dk2, Dk2, M2), c[4]), q.gauss(r, (M1, M2, di, di), c[2])
    ref = es('abm,axi,mnij,xyn->byj', Ls, A, Ws, Rs)
    q.need_close(mf.HAproductSingleSite(Ls, Ws, Rs, A.ravel()), ref.ravel(), 'HAproductSingleSite')
    q.need_close(np.ravel(mf.gradient(Ls, Ws, Rs, A)), ref.ravel(), 'gradient')
    if di == 2:
        q.need_close(mf.applyHsingleSite(Ls, Ws, Rs, A), ref, 'applyHsingleSite')
    # bond: K acts between environments of the same operator bond
    K = q.gauss(r, (Dk, Dk2), c[0])
    Rm = q.gauss(r, (Dk2, Db2, M1), c[4])
    ref = es('abm,ax,xym->by', Lx, K, Rm)
    q.need_close(mf.applyHbond(Lx, K, Rm) if False else mf.HAproductBondMatrix(Lx, Rm, K), ref, 'HAproductBondMatrix')
    q.need_close(mf.applyHbond(Lx, Rm, K), ref, 'applyHbond')
    Ks = q.gauss(r, (Dk, Dk), c[0])
    Rs2 = q.gauss(r, (Dk, Dk, M1), c[4])
    q.need_close(mf.HAproductBond(Ls, Rs2, Ks.ravel()), es('abm,ax,xym->by', Ls, Ks, Rs2).ravel(), 'HAproductBond')
    Rz = q.gauss(r, (Dk2, Dk2, M2), c[4])
    Kz = q.gauss(r, (Dk2, Dk2), c[0])
    ref = es('abm,axi,mnij,byj,xz,zwn->yw', Ls, A, Ws, A.conj(), Kz, Rz)
    q.need_close(mf.HAproductZeroSite(Ls, Ws, A, Rz, 'right', Kz.ravel()), ref.ravel(), 'HAproductZeroSite right')
    q.need_close(mf.HAproductZeroSiteMat(Ls, Ws, A, Rz, 'right', Kz), ref, 'HAproductZeroSiteMat right')
    ref = es('abm,ax,xzi,mnij,ywj,zwn->by', Ls, Ks, A, Ws, A.conj(), Rz)
    q.need_close(mf.HAproductZeroSite(Ls, Ws, A, Rz, 'left', Ks.ravel()), ref.ravel(), 'HAproductZeroSite left')
    q.need_close(mf.HAproductZeroSiteMat(Ls, Ws, A, Rz, 'left', Ks), ref, 'HAproductZeroSiteMat left')
    # overlap environment
    q.need_close(mf.contractionE(Lx, A, Rm2(r, Dk2, Db2, M1, c[4])), es('abm,axi,xym->byi', Lx, A, Rm2.last), 'contractionE')
    for a, b, nm in zip(keep, (A, B, W, Lx, Rx), ('ket', 'bra', 'mpo', 'L', 'R')):
        need(same(a, b), 'an environment routine changed its input {}', nm)
    return max(Dk, Db) > 1 and max(Dk2, Db2) > 1 and M1 > 1 and M2 > 1 and di > 1


def Rm2(r, a, b, m, c):
    Rm2.last = q.gauss(r, (a, b, m), c)
    return Rm2.last


# ---------------------------------------------------------------- whole chains: <b|H|a> at every cut, also with open boundary legs
def s_chain(st):
    @st.composite
    def f(draw):
        d = draw(gen.dims(st, 2, 6, 1, 3, cap=150))
        n = len(d)
        bd = lambda: [draw(st.integers(1, 4)) for _ in range(n + 1)]
        return {'d': d, 'a': bd(), 'b': bd(), 'm': bd(), 'c': [int(draw(st.booleans())) for _ in range(3)], 's': draw(gen.seeds(st)), 'obj': int(draw(st.booleans()))}
    return f()


def r_chain(case):
    d, n = case['d'], len(case['d'])
    r = q.rng('chain', case['s'])
    mf = L.mf
    c = case['c']
    t = lambda b, cc: [q.gauss(r, (b[i], b[i + 1], d[i]), cc) for i in range(n)]
    A, B = t(case['a'], c[0]), t(case['b'], c[1])
    W = [q.gauss(r, (case['m'][i], case['m'][i + 1], d[i], d[i]), c[2]) for i in range(n)]
    lb = q.gauss(r, (case['a'][0], case['b'][0], case['m'][0]), c[0])
    rb = q.gauss(r, (case['a'][-1], case['b'][-1], case['m'][-1]), c[1])
    va, vb = q.contract(A), q.contract(B)
    va = va.reshape(va.shape[0], -1, va.shape[-1])
    vb = vb.reshape(vb.shape[0], -1, vb.shape[-1])
    H = q.mpo_dense(W, full=True)
    tot = np.einsum('abm,aix,mnij,bjy,xyn->', lb, va, H, vb.conj(), rb, optimize=True)
    scale = np.linalg.norm(lb) * np.linalg.norm(va) * np.linalg.norm(H) * np.linalg.norm(vb) * np.linalg.norm(rb)
    A_, B_, W_ = A, B, W
    if case['obj']:
        A_, B_, W_ = mk_mps(A), mk_mps(B), Hm.MPO.fromlist(W) if hasattr(Hm.MPO, 'fromlist') else W
    for cut in range(n + 1):
        Lx = lb if cut == 0 else mf.contractMPO(A_, B_, W_, lb, 0, cut - 1, 1)
        Rx = rb if cut == n else mf.contractMPO(A_, B_, W_, rb, cut, n - 1, -1)
        q.need_close(np.einsum('abm,abm->', Lx, Rx), tot, 'left and right environment joined at bond %d' % cut, scale=scale)
        if cut < n:
            Rn = rb if cut == n - 1 else mf.contractMPO(A_, B_, W_, rb, cut + 1, n - 1, -1)
            h = mf.contractionH(Lx, A[cut], W[cut], Rn)
            q.need_close(np.sum(h * B[cut].conj()), tot, 'effective Hamiltonian at site %d' % cut, scale=scale)
        K = mf.HAproductBondMatrix(Lx, Rx, np.eye(case['a'][cut]))
        q.need_close(np.trace(K), tot, 'bond Hamiltonian at bond %d' % cut, scale=scale) if K.shape[0] == K.shape[1] and case['a'][cut] == case['b'][cut] else None
    # pure overlaps through contractE
    e0 = q.gauss(r, (case['a'][0], case['b'][0], 1), c[0])
    e1 = q.gauss(r, (case['a'][-1], case['b'][-1], 1), c[0])
    tot = np.einsum('ab,aix,biy,xy->', e0[:, :, 0], va, vb.conj(), e1[:, :, 0], optimize=True)
    scale = np.linalg.norm(e0) * np.linalg.norm(va) * np.linalg.norm(vb) * np.linalg.norm(e1)
    for cut in range(n + 1):
        Lx = e0 if cut == 0 else mf.contractE(A_, B_, e0, 0, cut - 1, 1)
        Rx = e1 if cut == n else mf.contractE(A_, B_, e1, cut, n - 1, -1)
        q.need_close(np.einsum('abm,abm->', Lx, Rx), tot, 'overlap environments joined at bond %d' % cut, scale=scale)
    # block lists use the same state on both sides
    lb2, rb2 = q.gauss(r, (case['a'][0], case['a'][0], case['m'][0]), c[0]), q.gauss(r, (case['a'][-1], case['a'][-1], case['m'][-1]), c[0])
    Ls, Rs = mf.getL(A, W, lb2), mf.getR(A, W, rb2)
    need(len(Ls) == n and len(Rs) == n, 'getL/getR return {} and {} blocks for {} sites', len(Ls), len(Rs), n)
    for k in range(n):
        q.need_close(Ls[k], mf.contractMPO(A, A, W, lb2, 0, k, 1), 'getL block %d' % k)
        q.need_close(Rs[k], mf.contractMPO(A, A, W, rb2, n - 1 - k, n - 1, -1), 'getR block %d' % k)
    q.need_close(mf.getUCL(A, W, lb2), Ls[-1], 'getUCL')
    q.need_close(mf.getUCR(A, W, rb2), Rs[-1], 'getUCR')
    return n >= 3 and max(case['m'][1:-1]) > 1 and max(case['a'][1:-1]) > 1


def mk_mps(ts):
    m = L.MPS([x.copy() for x in ts])
    return m


# ---------------------------------------------------------------- simulation containers: environments follow the state through any history
def s_cont(st):
    @st.composite
    def f(draw):
        h = draw(c10.tri_strategy(st))
        h['d'] = [max(2, x) for x in h['d']]
        n = len(h['d'])
        sc = draw(gen.state(st, d=h['d'], Dmax=5, kinds=['rand', 'rand', 'low', 'ghz', 'decay', 'prod']))
        one = st.one_of(st.tuples(st.just('pos'), st.integers(0, n)), st.tuples(st.just('pos'), st.integers(0, n)), st.just(('upd',)),
                        st.tuples(st.just('set'), st.integers(0, n - 1), gen.seeds(st)),
                        st.tuples(st.just('trunc'), st.sampled_from([1, 2, 3, None]), st.sampled_from([1e-10, 1e-3, 0.1])), st.just(('gate',)))
        return {'h': h, 's': sc, 'eng': draw(st.sampled_from(['dmrg', 'tdvp'])), 'prog': [list(x) for x in draw(st.lists(one, min_size=1, max_size=8))]}
    return f()


def check_env(eng, H, W, what):
    m = eng.mps
    n = len(m)
    x = q.vec(m) / m._Z
    x = x.ravel()
    nh = np.linalg.norm(H)
    en = x.dot(H).dot(x.conj())
    p = m.pos
    Lx, Rx = eng._L[p], eng._R[n - p]
    K = L.mf.HAproductBondMatrix(Lx, Rx, m._mat)
    q.need_close(np.sum(K * m._mat.conj()), en, 'energy from the environments at bond %d, %s' % (p, what), scale=nh)
    q.need_close(np.vdot(x, x), 1.0, 'norm of the state, ' + what)
    if p < n:
        A = m.tensor(p)
        h = L.mf.HAproductSingleSite(Lx, W[p], eng._R[n - 1 - p], A.ravel())
        q.need_close(np.vdot(A.ravel(), h), en, 'energy from the one-site Hamiltonian at site %d, %s' % (p, what), scale=nh)
    for k in range(p + 1):
        ref = eng._lb if k == 0 else L.mf.contractMPO(m._tensors, m._tensors, W, eng._lb, 0, k - 1, 1)
        q.need_close(eng._L[k], ref, 'left environment %d with the centre at %d, %s' % (k, p, what), scale=max(nh, 1))
    for k in range(n - p + 1):
        ref = eng._rb if k == 0 else L.mf.contractMPO(m._tensors, m._tensors, W, eng._rb, n - k, n - 1, -1)
        q.need_close(eng._R[k], ref, 'right environment %d with the centre at %d, %s' % (k, p, what), scale=max(nh, 1))


def r_cont(case):
    ts, hs, H = c10.tri(case['h'])
    m = q.mk(case['s'])
    x = q.vec(m)
    n = len(m)
    if case['eng'] == 'dmrg':
        eng = E.DMRGengine(m, ts, 'cont')
    else:
        eng = E.TimeEvolutionEngine(m, ts, 'cont')
        need(eng.mps is not m, 'the time evolution engine works on the caller\'s state')
    W = ts
    check_env(eng, H, W, 'after construction')
    x = q.vec(eng.mps)
    moved = 0
    for k, ins in enumerate(case['prog']):
        what = '%s [step %d]' % (ins, k)
        if ins[0] == 'pos':
            eng.position(ins[1])
            need(eng.mps.pos == ins[1], 'centre at {} after {}', eng.mps.pos, what)
            q.need_close(q.vec(eng.mps), x, 'state after ' + what)
            moved += 1
        elif ins[0] == 'upd':
            eng.update()
            need(eng.mps.pos == 0, 'centre at {} after update', eng.mps.pos)
            q.need_close(q.vec(eng.mps), x, 'state after ' + what)
        elif ins[0] == 'gate':            # change the state behind the engine, then update
            eng.mps.applyOneSiteGate(q.rand_op(q.rng('g', k), case['s']['d'][0], 0, 'unitary'), 0)
            eng.update()
            x = q.vec(eng.mps)
        elif ins[0] == 'set':             # replace a tensor next to the centre as an optimiser does
            site = ins[1]
            eng.position(site)
            A = eng.mps.tensor(site, clear=True)
            B = q.gauss(q.rng('set', ins[2]), A.shape, case['s']['c'])
            eng.mps[site] = B / np.linalg.norm(B)
            eng.position(site + 1)
            x = q.vec(eng.mps)
            what += ' one-site update'
            eng.mps.resetZ()
            x = q.vec(eng.mps)
        else:
            eng.truncateMPS(truncation_threshold=ins[2], D=ins[1])
            need(eng.mps.pos == 0, 'centre at {} after truncateMPS', eng.mps.pos)
            y = q.vec(eng.mps)
            if ins[1] is not None:
                need(max(q.bonds(eng.mps)) <= ins[1], 'bond dimensions {} after {}', q.bonds(eng.mps), what)
            F = abs(np.vdot(x, y)) / np.linalg.norm(x) / np.linalg.norm(y)
            low = 1.0
            for b in range(1, n):
                s = q.schmidt(x, b)
                keep = (s > max(ins[2], 0) * (1 - 1e-9) - 1e-300) & (np.arange(len(s)) < (ins[1] or 10**9))
                low -= 1.5 * np.sum(s[~keep] ** 2) + (np.sum(s[s < 3 * ins[2]] ** 2) if n > 2 else 0)
            need(F ** 2 >= low - 1e-8, 'fidelity {} after {}, at least {} is possible', F ** 2, what, low)
            x = y
        check_env(eng, H, W, 'after ' + what)
    return moved > 0 and max(q.bonds(eng.mps)) > 1 and sum(case['h']['K']) > 0, case['eng']


# ---------------------------------------------------------------- effective operators as matrices between orthonormal frames
def s_eff(st):
    @st.composite
    def f(draw):
        d = draw(gen.dims(st, 2, 5, 1, 3, cap=60))
        n = len(d)
        sc = draw(gen.state(st, d=d, Dmax=4, kinds=['rand', 'rand', 'low', 'decay'], z=False))
        return {'s': sc, 'M': [draw(st.integers(1, 4)) for _ in range(n - 1)], 'c': int(draw(st.booleans())), 'herm': draw(st.integers(0, 1)), 'site': draw(st.integers(0, n - 1)), 'es': draw(gen.seeds(st))}
    return f()


def r_eff(case):
    m = q.mk(case['s'])
    d = case['s']['d']
    n = len(d)
    r = q.rng('eff', case['es'])
    W = q.rand_mpo(r, d, case['M'], case['c'])
    if case['herm']:                          # W + W^dagger as a direct sum
        W = [herm_sum(w, i == 0, i == n - 1) for i, w in enumerate(W)]
    H = q.mpo_dense(W)
    site = case['site']
    m.position(site)
    eng = E.DMRGengine(m, W, 'eff')
    eng.position(site)
    T = m._tensors
    Dl, Dr = T[site - 1].shape[1] if site else 1, T[site].shape[1]       # the bond matrix may be rectangular
    left = q.contract(T[:site]).reshape(-1, Dl) if site else np.ones((1, 1))
    right = q.contract(T[site + 1:]).reshape(Dr, -1) if site < n - 1 else np.ones((1, 1))
    nh = np.linalg.norm(H)
    ds = d[site]

    def frame(left, right, dm):
        # columns: basis vectors (l, r, s) -> dense vector
        P = np.einsum('xl,ry,st->xtylrs', left, right, np.eye(dm))
        return P.reshape(-1, left.shape[1] * right.shape[0] * dm)

    def assemble(f, size):
        return np.array([f(e) for e in np.eye(size)]).T
    Lx, Rx = eng._L[site], eng._R[n - 1 - site]
    P = frame(left, right, ds)
    ref = P.conj().T.dot(H.T).dot(P)          # out,in
    got = assemble(lambda v: L.mf.HAproductSingleSite(Lx, W[site], Rx, v), Dl * Dr * ds)
    q.need_close(got, ref, 'one-site effective Hamiltonian at site %d' % site, scale=nh)
    if case['herm']:
        q.need_close(got, got.conj().T, 'Hermiticity of the one-site effective Hamiltonian at site %d' % site, scale=nh)
    if site < n - 1:
        # two sites, merged the way the engines do it
        T2 = T[site + 1]
        Dr2 = T2.shape[1]
        right2 = q.contract(T[site + 2:]).reshape(Dr2, -1) if site < n - 2 else np.ones((1, 1))
        W2 = np.einsum('abij,bckl->acikjl', W[site], W[site + 1]).reshape(W[site].shape[0], W[site + 1].shape[1], ds * d[site + 1], ds * d[site + 1])
        P2 = frame(left, right2, ds * d[site + 1])
        got = assemble(lambda v: L.mf.HAproductSingleSite(Lx, W2, eng._R[n - 2 - site], v), Dl * Dr2 * ds * d[site + 1])
        q.need_close(got, P2.conj().T.dot(H.T).dot(P2), 'two-site effective Hamiltonian at sites %d,%d' % (site, site + 1), scale=nh)
    # bond left of the site, with the centre there
    if left.shape[1] == T[site].shape[0]:
        rightb = q.contract(T[site:]).reshape(Dl, -1)
        Pb = np.einsum('xl,ry->xylr', left, rightb).reshape(-1, Dl * Dl)
        got = assemble(lambda v: L.mf.HAproductBond(Lx, eng._R[n - site], v), Dl * Dl)
        q.need_close(got, Pb.conj().T.dot(H.T).dot(Pb), 'bond Hamiltonian left of site %d' % site, scale=nh)
        got2 = assemble(lambda v: L.mf.HAproductZeroSite(Lx, W[site], T[site], Rx, 'left', v), Dl * Dl)
        q.need_close(got2, got, 'zero-site Hamiltonian left of site %d' % site, scale=nh)
    return Dl * Dr > 1 and max(case['M']) > 1, 'herm' if case['herm'] else 'general'


def herm_sum(w, first, last):
    v = np.swapaxes(w, 2, 3).conj()
    a, b = w.shape[:2]
    z = np.zeros((1 if first else 2 * a, 1 if last else 2 * b) + w.shape[2:], dtype=np.result_type(w, v))
    z[:a if not first else 1, :b if not last else 1] += w
    z[(0 if first else a):, (0 if last else b):] += v
    return z


FACETS = [
    Facet('layer', s_layer, r_layer, 1200, rule='all bonds above 1'),
    Facet('chain', s_chain, r_chain, 500, rule='three or more sites, inner bonds above 1'),
    Facet('container', s_cont, r_cont, 400, rule='the centre moved and bonds are above 1'),
    Facet('effective', s_eff, r_eff, 500, rule='operator bond above 1 and more than one basis vector'),
]
