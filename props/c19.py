"""C19: saving, loading and checkpointing reproduce the object and its future."""
from spec import Facet, Skip, need
import gen, inf, c10, c13, c14

RULE = 'Non-trivial: an entangled state was saved, loaded and operated on afterwards; for checkpoints, at least one file was written before the end of a run.'
ASSUMPTIONS = ['files are written to and read from a scratch directory only',
               'histories after loading are compared with the same history on the object that was not saved, to 1e-8',
               'operators are saved as part of a simulation: they have no save method of their own']


def load():
    global q, np, L, E, Hm, os, glob, pickle
    import os, glob, pickle
    import numpy as np, qlib as q
    L = q.lib()
    c14.load()
    import lib.mpslib.engines as E
    import lib.mpslib.Hamiltonians as Hm


class scratch:
    """a fresh working directory"""
    def __enter__(self):
        import tempfile
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix='c19')
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        for f in os.listdir(self.dir):
            os.remove(os.path.join(self.dir, f))
        os.rmdir(self.dir)


def same(a, b):
    """equality of attribute values"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, '__dict__') and not isinstance(a, type):
        return type(a) == type(b) and same_obj(a, b) is None
    return bool(a == b)


def same_obj(a, b):
    """name of the first attribute that differs"""
    for k in sorted(set(vars(a)) | set(vars(b))):
        if k not in vars(a) or k not in vars(b) or not same(vars(a)[k], vars(b)[k]):
            return k
    return None


PUB = ['D', 'd', 'obc', 'pos', 'dtype', 'Dmax']


def same_state(a, b, what):
    for k in PUB:
        need(getattr(a, k) == getattr(b, k), '{}: {} is {} instead of {}', what, k, getattr(b, k), getattr(a, k))
    for i, (s, t) in enumerate(zip(a.tensors, b.tensors)):
        need(same(s, t), '{}: tensor {} differs', what, i)
    k = same_obj(a, b)
    need(k is None, '{}: attribute {} differs: {} instead of {}', what, k, getattr(b, str(k), None), getattr(a, str(k), None))


def ops(st, size):
    o = st.one_of(
        st.tuples(st.just('pos'), st.integers(0, 9)),
        st.tuples(st.just('one'), st.integers(0, 9), gen.seeds(st), st.booleans().map(int)),
        st.tuples(st.just('two'), st.integers(0, 9), gen.seeds(st), st.sampled_from([None, 1, 2, 3])),
        st.tuples(st.just('scale'), gen.scalar(st)),
        st.tuples(st.just('neg'), st.just(0)),
        st.tuples(st.just('add'), gen.seeds(st)),
        st.tuples(st.just('trunc'), st.integers(1, 4)),
        st.tuples(st.just('canon'), st.just(0)),
        st.tuples(st.just('dmax'), st.integers(1, 8)),
        st.tuples(st.just('thr'), st.sampled_from([1e-16, 1e-10, 1e-3])),
        st.tuples(st.just('resetZ'), st.just(0)),
        st.tuples(st.just('mpo'), gen.seeds(st)),
        st.tuples(st.just('copy'), st.just(0))).map(list)
    return st.lists(o, max_size=size)


def gap_ok(m):
    """no Schmidt values close to each other (truncation is then a stable operation)"""
    x = q.vec(m)
    for b in range(1, x.ndim):
        s = q.schmidt(x, b)
        s = s[s > 1e-9 * s[0]]
        if np.any(s[:-1] - s[1:] < 1e-4 * s[0]):
            return False
    return True


def act(m, ins, d):
    """one operation of the history; None if it is not applicable"""
    k = ins[0]
    n = len(d)
    if k == 'pos':
        if m._schmidt_thresh > 1e-12 and not gap_ok(m):
            return m, None
        m.position(ins[1] % (n + 1))
    elif k == 'one':
        m.applyOneSiteGate(q.rand_op(q.rng('o', ins[2]), d[ins[1] % n], ins[3], 'gen'), ins[1] % n)
    elif k == 'two':
        if n < 2:
            return m, None
        s = ins[1] % (n - 1)
        g = q.rand_op(q.rng('t', ins[2]), d[s] * d[s + 1], 1, 'gen').reshape(d[s], d[s + 1], d[s], d[s + 1])
        if ins[3] is not None or m._schmidt_thresh > 1e-12:
            y = q.apply2(q.vec(m), g, s)
            sv = np.linalg.svd(y.reshape(int(np.prod(d[:s + 1])), -1), compute_uv=False)
            if np.any(sv[:-1] - sv[1:] < 1e-4 * sv[0]):
                return m, None
        return m, m.applyTwoSiteGate(g, s, **({} if ins[3] is None else {'Dmax': ins[3]}))
    elif k == 'scale':
        m *= q.num(ins[1])
    elif k == 'neg':
        m = -m
    elif k == 'add':
        if max(q.bonds(m)) > 12:
            return m, None
        m = m + q.mk({'d': d, 'D': [2] * (n - 1), 'k': 'rand', 'c': 0, 's': ins[1]})
    elif k == 'trunc':
        if not gap_ok(m):
            return m, None
        m.truncate(1e-12, D=ins[1])
    elif k == 'canon':
        m.canonize()
        return m, [list(map(len, m._lambda))]
    elif k == 'dmax':
        m.Dmax = ins[1]
    elif k == 'thr':
        m._schmidt_thresh = ins[1]
    elif k == 'resetZ':
        m.resetZ()
    elif k == 'mpo':
        if max(q.bonds(m)) > 8:
            return m, None
        m.applyMPO(Hm.MPO(q.rand_mpo(q.rng('m', ins[1]), d, [2] * (n - 1), 1)))
    elif k == 'copy':
        m = m.copy()
    return m, None


# ---------------------------------------------------------------- finite states
def s_state(st):
    return st.tuples(gen.state(st, cap=200, nmax=5, Dmax=4), ops(st, 4), gen.state(st, cap=60, nmax=4, Dmax=3), ops(st, 3), ops(st, 4)).map(list)


def r_state(case):
    sc, pre, oc, opre, post = case
    d = sc['d']
    m, o = q.mk(sc), q.mk(oc, 1)
    for ins in pre:
        m, _ = act(m, ins, d)
    for ins in opre:
        o, _ = act(o, ins, oc['d'])
    x = q.vec(m)
    if not np.linalg.norm(x) > 1e-10:
        raise Skip('zero state')
    ref = pickle.dumps(m)
    with scratch():
        need(m.save('state') is None, 'save returned something')
        need(os.listdir('.') == ['state.pickle'], 'save wrote {}', os.listdir('.'))
        need(pickle.dumps(m) == ref, 'saving changed the state')
        same_state(pickle.loads(ref), m, 'the saved state itself')
        o.load('state')
        same_state(m, o, 'loaded state')
        fresh = L.MPS.random(3, 2, 2, obc=True)
        fresh.load('state')
        same_state(m, fresh, 'state loaded into a fresh object')
    q.need_close(q.vec(o), x, 'vector of the loaded state', tol=1e-12)
    for a, b in zip(m.tensors, o.tensors):
        need(not np.shares_memory(a, b), 'loaded state shares memory with the saved one')
    for i, ins in enumerate(post):
        m, ra = act(m, ins, d)
        o, rb = act(o, ins, d)
        what = 'operation %d (%s) after loading' % (i, ins[0])
        y, z = q.vec(m), q.vec(o)
        if not np.linalg.norm(y) > 1e-8 * np.linalg.norm(x):
            raise Skip('state lost')
        q.need_close(z, y, 'state after ' + what, tol=1e-7)
        for k in PUB:
            need(getattr(m, k) == getattr(o, k), '{}: {} is {} instead of {}', what, k, getattr(o, k), getattr(m, k))
        if ra is not None:
            need(np.allclose(np.array(ra, dtype=float), np.array(rb, dtype=float), atol=1e-8), '{}: returned {} instead of {}', what, rb, ra)
        hs = [q.rand_op(q.rng('meas', i), dd, 1, 'herm') for dd in d]
        q.need_close(np.array(o.measureList(hs)), np.array(m.measureList(hs)), 'measurements after ' + what, tol=1e-7, scale=max(1e-12, np.linalg.norm(y)**2))
    q.need_close(q.vec(fresh), x, 'the other loaded copy', tol=1e-12)
    return max(q.bonds(m)) > 1 and len(post) > 0, '+'.join(sorted(set(i[0] for i in pre)))[:40]


# ---------------------------------------------------------------- infinite states
def s_inf(st):
    step = st.one_of(st.tuples(st.just('g'), st.sampled_from(['left', 'right', 'symmetric'])), st.tuples(st.just('p'), st.integers(0, 4)),
                     st.tuples(st.just('c'), st.just(0)), st.tuples(st.just('t'), st.integers(1, 3)), st.tuples(st.just('one'), st.integers(0, 9))).map(list)
    return st.tuples(inf.cell(st, wrap=2, nmax=3), st.lists(step, max_size=3), st.lists(step, min_size=1, max_size=3)).map(list)


def act_inf(m, ins, c):
    k, a = ins
    n = len(m)
    if k == 'g':
        m.regauge(a)
    elif k == 'p':
        m.position(min(a, n))
    elif k == 'c':
        m.canonize()
    elif k == 't':
        m.truncate(1e-12, D=a)
    else:
        m.applyOneSiteGate(q.rand_op(q.rng('i', a), m.d[a % n], c['c'], 'unitary'), a % n)


def inf_gap(m):
    o = inf.Inf(inf.of_mps(m))
    if not o.good(0.95, 1e-6):
        return False
    s = o.schmidt(0)
    return not np.any(s[:-1] - s[1:] < 1e-3)


def r_inf(case):
    c, pre, post = case
    ts = inf.build(c)
    if not inf.Inf(ts).good(0.95, 1e-6):
        raise Skip('not injective or ill-conditioned')
    m = L.MPS([t.copy() for t in ts])
    for ins in pre:
        if not inf_gap(m):
            raise Skip('degenerate Schmidt values')
        act_inf(m, ins, c)
    with scratch():
        ref = pickle.dumps(m)
        m.save('cell')
        need(pickle.dumps(m) == ref, 'saving changed the state')
        o = L.MPS.random(2, 3, 2, obc=True)
        o.load('cell')
    same_state(m, o, 'loaded state')
    need(o.obc == m.obc, 'boundary condition {}', o.obc)
    for i, ins in enumerate(post):
        if not inf_gap(m):
            raise Skip('degenerate Schmidt values')
        np.random.seed(1)
        act_inf(m, ins, c)
        np.random.seed(1)
        act_inf(o, ins, c)
        what = 'operation %d (%s) after loading' % (i, ins)
        for k in PUB:
            need(getattr(m, k) == getattr(o, k), '{}: {} is {} instead of {}', what, k, getattr(o, k), getattr(m, k))
        f = inf.fidelity(inf.of_mps(m), inf.of_mps(o))
        need(abs(f - 1) < 1e-6, '{}: fidelity {} with the state that was not saved', what, f)
        need(abs(np.linalg.norm(m._mat) - np.linalg.norm(o._mat)) < 1e-7 * np.linalg.norm(m._mat), '{}: centre matrices differ', what)
        for a, b in zip(m._lambda or [], o._lambda or []):
            need(q.close(a, b, 1e-7), '{}: lambda {} instead of {}', what, b, a)
    return max(c['D']) > 1 and len(pre) > 0, '+'.join(sorted(set(i[0] for i in pre)))


# ---------------------------------------------------------------- engines: save, load, continue both
def s_engine(st):
    dt = st.sampled_from([[0.0, -0.1], [0.0, 0.05], [-0.1, 0.0], [-0.05, -0.05]])
    call = st.one_of(st.tuples(st.just('tebd'), dt, st.integers(1, 2), st.sampled_from([2, 3, 30]), st.just(0)),
                     st.tuples(st.just('tdvp'), dt, st.integers(1, 2), st.sampled_from(['LAN', 'RK45'])),
                     st.tuples(st.just('pos'), st.integers(0, 6)),
                     st.tuples(st.just('init'), st.just(0)),
                     st.tuples(st.just('reset'), st.just(0))).map(list)
    dm = st.one_of(st.tuples(st.just('one'), st.integers(1, 2), st.sampled_from(['AR', 'LAN'])), st.tuples(st.just('two'), st.integers(1, 2), st.sampled_from(['AR', 'LAN'])),
                   st.tuples(st.just('pos'), st.integers(0, 6)), st.tuples(st.just('trunc'), st.integers(1, 3)), st.tuples(st.just('update'), st.just(0))).map(list)
    ev = st.tuples(st.just('ev'), ham3(st, 40), st.integers(1, 3), gen.seeds(st), st.lists(call, max_size=2), st.lists(call, min_size=1, max_size=3), st.integers(0, 2))
    gs = st.tuples(st.just('gs'), ham3(st, 40), st.integers(1, 3), gen.seeds(st), st.lists(dm, max_size=2), st.lists(dm, min_size=1, max_size=3), st.integers(0, 2))
    return st.one_of(ev, gs).map(list)


def act_eng(eng, ins, nh, n):
    k = ins[0]
    if k == 'tebd':
        r = eng.doTEBD(dt=c10.tau_of([v / nh for v in ins[1]]), numsteps=ins[2], Dmax=ins[3], tr_thresh=1e-12, verbose=0)
        if not ins[4]:
            eng.initializeTDVP()             # TEBD does not keep the environments up to date
        return r
    if k == 'tdvp':
        return eng.doTDVP(dt=c10.tau_of([v / nh for v in ins[1]]), numsteps=ins[2], solver=ins[3], krylov_dim=12, verbose=0)
    if k == 'pos':
        eng.position(ins[1] % (n + 1))
    elif k == 'init':
        eng.initializeTDVP()
    elif k == 'reset':
        eng.reset()
    elif k == 'one':
        return [eng.simulate(Nmax=ins[1], solver=ins[2], tol=1e-10, verbose=0)]
    elif k == 'two':
        return [eng.simulateTwoSite(Nmax=ins[1], solver=ins[2], tol=1e-10, verbose=0)]
    elif k == 'trunc':
        eng.truncateMPS(D=ins[1])
    elif k == 'update':
        eng.update()
    return []


def r_engine(case):
    kind, h, D, s, pre, post, form = case
    ts, hs, H = c10.tri(h)
    d = h['d']
    n = len(d)
    nh = max(1.0, np.linalg.norm(H, 2) / 3)
    m = q.mk({'d': d, 'D': [D] * (n - 1), 'k': 'rand', 'c': 1, 's': s, 'mv': [s % (n + 1)], 'z': 1.0})
    mpo = Hm.MPO(ts)
    eng = E.DMRGengine(m, mpo, 'run') if kind == 'gs' else E.TimeEvolutionEngine(m, mpo, 'run')
    w = np.linalg.eigvalsh(H)
    if kind == 'gs' and len(w) > 1 and w[1] - w[0] < 1e-2 * nh:
        raise Skip('degenerate ground state')
    with scratch():
        for ins in pre:
            act_eng(eng, ins, nh, n)
        x = q.vec(eng.mps)
        ref = pickle.dumps(eng)
        eng.save('sim')
        need(pickle.dumps(eng) == ref, 'saving changed the simulation')
        need(os.listdir('.') == ['sim.pickle'] or pre, 'save wrote {}', os.listdir('.'))
        if form == 0:
            new = E.Container().load('sim')
        elif form == 1:
            new = E.DMRGengine(q.mk({'d': [2, 2], 'D': [1], 'k': 'rand', 'c': 0, 's': 1}), Hm.MPO(q.rand_mpo(q.rng('x'), [2, 2], [2], 0)), 'other').load('sim')
        else:
            new = eng.load('sim')
        need(type(new) is type(eng), 'load returned {}', type(new))
        need(new is not eng and new.mps is not eng.mps, 'load returned the simulation it was called on')
        k = same_obj(eng, new)
        need(k is None, 'loaded simulation: attribute {} differs', k)
        same_state(eng.mps, new.mps, 'state of the loaded simulation')
        for i in range(n):
            need(same(eng._mpo[i], new._mpo[i]), 'operator of the loaded simulation differs at site {}', i)
        for i, ins in enumerate(post):
            ra = act_eng(eng, ins, nh, n)
            rb = act_eng(new, ins, nh, n)
            what = 'operation %d (%s) after loading' % (i, ins)
            y, z = q.vec(eng.mps), q.vec(new.mps)
            need(np.allclose(np.asarray(ra), np.asarray(rb), atol=1e-7 * nh), '{}: returned {} instead of {}', what, rb, ra)
            need(eng.mps.D == new.mps.D and eng.mps.pos == new.mps.pos, '{}: bond dimensions {} instead of {}', what, new.mps.D, eng.mps.D)
            if kind == 'ev':
                q.need_close(z, y, 'state after ' + what, tol=1e-6)
                need(eng.time == new.time and eng.iteration == new.iteration and abs(eng.truncatedWeight - new.truncatedWeight) < 1e-9, '{}: counters {} instead of {}', what,
                     (new.time, new.iteration, new.truncatedWeight), (eng.time, eng.iteration, eng.truncatedWeight))
            else:
                ov = abs(np.sum(z.conj() * y)) / np.linalg.norm(y) / np.linalg.norm(z)
                ea = [np.real(v.ravel().dot(H).dot(v.ravel().conj())) / np.linalg.norm(v)**2 for v in (y, z)]
                need(abs(ea[0] - ea[1]) < 1e-6 * nh, '{}: energy {} instead of {}', what, ea[1], ea[0])
                need(abs(np.linalg.norm(y) - np.linalg.norm(z)) < 1e-6 * np.linalg.norm(y), '{}: norm {} instead of {}', what, np.linalg.norm(z), np.linalg.norm(y))
    return n >= 3 and D > 1, kind + '|' + '+'.join(sorted(set(i[0] for i in post)))


def ham3(st, cap):
    """mostly three sites or more"""
    return st.one_of(c14.ham(st, cap), *[c14.ham(st, cap).map(lambda h: dict(h, d=(h['d'] + [2, 2])[:max(3, len(h['d']))], K=(h['K'] + [1, 1])[:max(2, len(h['d']) - 1)]))] * 3)


# ---------------------------------------------------------------- checkpoints of TEBD and TDVP runs
def s_cp(st):
    @st.composite
    def f(draw):
        kind = draw(st.sampled_from(['tebd', 'tdvp']))
        h = draw(ham3(st, 40))
        dt = draw(st.sampled_from([[0.0, -0.1], [0.0, 0.05], [-0.1, 0.0], [-0.05, -0.05]]))
        return {'kind': kind, 'h': h, 'D': draw(st.integers(1, 3)), 's': draw(gen.seeds(st)), 'dt': dt, 'warm': draw(st.sampled_from([0, 0, 1, 2])), 'steps': draw(st.sampled_from([1, 2, 3, 4, 5, 6])),
                'cp': draw(st.sampled_from([1, 1, 2, 2, 3, 4])), 'keep': int(draw(st.booleans())), 'sol': draw(st.sampled_from(['LAN', 'RK45'])), 'Dmax': draw(st.sampled_from([2, 3, 30])),
                'verb': draw(st.integers(0, 2)), 'z': draw(st.sampled_from([1.0, 0.4]))}
    return f()


def r_cp(c):
    ts, hs, H = c10.tri(c['h'])
    d = c['h']['d']
    n = len(d)
    nh = max(1.0, np.linalg.norm(H, 2) / 3)
    dt = c10.tau_of([v / nh for v in c['dt']])
    st = {'d': d, 'D': [c['D']] * (n - 1), 'k': 'rand', 'c': 1, 's': c['s'], 'mv': [c['s'] % (n + 1)], 'z': c['z']}
    kind = c['kind']
    name = 'run_%s' % kind

    def go(e, k, **kw):
        if kind == 'tebd':
            return e.doTEBD(dt=dt, numsteps=k, Dmax=c['Dmax'], tr_thresh=1e-12, verbose=c['verb'], **kw)
        return e.doTDVP(dt=dt, numsteps=k, solver=c['sol'], krylov_dim=12, rtol=1e-9, atol=1e-11, verbose=c['verb'], **kw)

    def new():
        e = E.TimeEvolutionEngine(q.mk(st), Hm.MPO(ts), name)
        if c['warm']:
            go(e, c['warm'])
        return e

    # a cut through Schmidt values that are (nearly) equal, or inverse-weight sensitive flows, amplify rounding errors: compare within what a perturbed run gives
    with scratch():
        a = new()
        go(a, c['steps'])
        ya = q.vec(a.mps)
        need(not os.listdir('.'), 'a run without checkpoints wrote {}', os.listdir('.'))
        b = new()
        go(b, c['steps'], cp=c['cp'], keep_cp=bool(c['keep']))
        what = 'numsteps=%d after %d, cp=%d, keep_cp=%s' % (c['steps'], c['warm'], c['cp'], bool(c['keep']))
        total = c['warm'] + c['steps']
        # TEBD with truncation: a checkpoint splits the merged even layers in two halves, each of which truncates
        cut = kind == 'tebd' and (abs(a.truncatedWeight) > 1e-14 or abs(b.truncatedWeight) > 1e-14)
        tol = 1e-6
        if not cut:
            q.need_close(q.vec(b.mps), ya, 'final state of the run with checkpoints (%s)' % what, tol=tol)
        need(b.iteration == total and abs(b.time - total * abs(np.imag(dt))) < 1e-10, '{}: iteration {} time {}', what, b.iteration, b.time)
        marks = [k for k in range(c['warm'] + 1, total + 1) if k % c['cp'] == 0]
        want = marks if c['keep'] else marks[-1:]
        got = sorted(os.listdir('.'))
        need(len(got) == len(want), '{}: checkpoint files {} for checkpoints after steps {}', what, got, want)
        seen = []
        for f in got:
            need(f.endswith('.pickle'), '{}: wrote {}', what, f)
            r = E.Container().load(f[:-7])
            need(type(r) is E.TimeEvolutionEngine, 'loaded {}', type(r))
            seen.append(r.iteration)
            w = '%s, checkpoint %s' % (what, f)
            need(f[:-7].endswith(str(r.iteration)) and f.startswith(name), '{}: file of iteration {}', w, r.iteration)
            need(abs(r.time - r.iteration * abs(np.imag(dt))) < 1e-10, '{}: time {} at iteration {}', w, r.time, r.iteration)
            x = q.vec(r.mps)
            need(abs(np.linalg.norm(x) - 1) < 1e-8, '{}: norm {}', w, np.linalg.norm(x))
            p = new()
            go(p, r.iteration - c['warm'])
            if not cut:
                q.need_close(x, q.vec(p.mps), 'state in %s against a run of that length' % w, tol=tol)
            go(r, total - r.iteration)
            need(r.iteration == total and abs(r.time - b.time) < 1e-10, '{} continued: iteration {} time {}', w, r.iteration, r.time)
            y = q.vec(r.mps)
            need(abs(np.linalg.norm(y) - 1) < 1e-8, '{} continued: norm {}', w, np.linalg.norm(y))
            if not cut:
                q.need_close(y, ya, 'final state of the run continued from %s' % w, tol=tol)
                need(r.mps.D == b.mps.D, '{} continued: bond dimensions {} instead of {}', w, r.mps.D, b.mps.D)
        need(sorted(seen) == want, '{}: checkpoints of steps {} instead of {}', what, sorted(seen), want)
    early = [k for k in want if k < total]
    return bool(early) and n >= 3 and not cut, kind + ('|kept' if c['keep'] else '|last') + ('|cut' if cut else '')


# ---------------------------------------------------------------- TEBD checkpoints with truncation: continue the interrupted run itself
def s_cpt(st):
    return s_cp(st).map(lambda c: dict(c, kind='tebd', keep=1, Dmax=min(c['Dmax'], 3), D=3))


def r_cpt(c):
    ts, hs, H = c10.tri(c['h'])
    d = c['h']['d']
    n = len(d)
    nh = max(1.0, np.linalg.norm(H, 2) / 3)
    dt = c10.tau_of([v / nh for v in c['dt']])
    st = {'d': d, 'D': [c['D']] * (n - 1), 'k': 'rand', 'c': 1, 's': c['s'], 'mv': [], 'z': 1.0}
    e = E.TimeEvolutionEngine(q.mk(st), Hm.MPO(ts), 'run')
    kw = dict(dt=dt, Dmax=c['Dmax'], tr_thresh=1e-12, verbose=0, keep_cp=True)
    with scratch():
        e.doTEBD(numsteps=c['steps'], cp=c['cp'], **kw)
        y, nt = q.vec(e.mps), False
        if e.truncatedWeight > 0 and not gap_ok(e.mps):
            raise Skip('close Schmidt values')
        for k in range(c['cp'], c['steps'] + 1, c['cp']):
            r = E.Container().load('run_tebd_cp%d' % k)
            need(r.iteration == k, 'checkpoint {}: iteration {}', k, r.iteration)
            if k == c['steps']:
                z = q.vec(r.mps)
            else:
                r.doTEBD(numsteps=c['steps'] - k, cp=c['cp'], **kw)
                z = q.vec(r.mps)
                nt = e.truncatedWeight > 1e-10
            q.need_close(z, y, 'final state continued from checkpoint %d of %d' % (k, c['steps']), tol=1e-6)
            need(abs(r.truncatedWeight - e.truncatedWeight) < 1e-8, 'checkpoint {}: truncated weight {} instead of {}', k, r.truncatedWeight, e.truncatedWeight)
            need(r.mps.D == e.mps.D, 'checkpoint {}: bond dimensions {} instead of {}', k, r.mps.D, e.mps.D)
    return nt, 'cut' if nt else 'exact'


# ---------------------------------------------------------------- DMRG checkpoints
def s_dm(st):
    return st.tuples(ham3(st, 60), st.integers(1, 3), gen.seeds(st), st.sampled_from(['one', 'one', 'two']), st.sampled_from(['AR', 'LAN']), st.sampled_from([[3, 2], [5, 2], [5, 3], [4, 3], [5, 4], [3, 1], [2, 3]]), st.sampled_from([3, 20])).map(list)


def r_dm(case):
    h, D, s, kind, solver, (Nmax, cp), cap = case
    ts, hs, H = c10.tri(h)
    d = h['d']
    n = len(d)
    nh = max(1e-3, np.linalg.norm(H, 2))
    st = {'d': d, 'D': [D] * (n - 1), 'k': 'rand', 'c': 1, 's': s, 'mv': [s % (n + 1)], 'z': 1.0}
    kw = dict(tol=1e-12, Econv=0.0, verbose=0, solver=solver, nmaxlan=200, landeltaEta=1e-12)

    def go(e, k, **k2):
        return (e.simulateTwoSite if kind == 'two' else e.simulate)(Nmax=k, **kw, **k2)

    def en(m):
        v = q.vec(m).ravel()
        return np.real(v.dot(H).dot(v.conj())) / np.linalg.norm(v)**2, v / np.linalg.norm(v)
    with scratch():
        m = q.mk(st)
        m._D = max(cap, D)
        x = q.vec(m)
        a = E.DMRGengine(m, Hm.MPO(ts), 'gs')
        ea = go(a, Nmax, cp=cp)
        marks = [k for k in range(1, Nmax + 1) if k % cp == 0]
        if a.mps is not None and not marks:
            need(os.listdir('.') == [], 'wrote {} before the first checkpoint', os.listdir('.'))
            return False, 'none'
        files = os.listdir('.')
        need('gs_dmrg_cp.pickle' in files and len(files) == 1, 'checkpoint files {} for sweeps {}', files, marks)
        k = marks[-1]
        r = L.MPS.random(2, 2, 2, obc=True)
        r.load('gs_dmrg_cp')
        q.check_shapes(r, d, 'checkpointed state')
        need(r.Dmax == a.mps.Dmax, 'checkpointed state: Dmax {} instead of {}', r.Dmax, a.mps.Dmax)
        m2 = q.mk(st)
        m2._D = max(cap, D)
        b = E.DMRGengine(m2, Hm.MPO(ts), 'gs2')
        eb = go(b, k, cp=None)
        e1, v1 = en(r)
        e2, v2 = en(b.mps)
        need(abs(e1 - e2) < 1e-6 * nh, '{} {}: checkpoint after sweep {} has energy {}, a run of that many sweeps reaches {}', kind, solver, k, e1, e2)
        if Nmax > k:
            c = E.DMRGengine(r, Hm.MPO(ts), 'gs3')
            ec = go(c, Nmax - k, cp=None)
            e3, v3 = en(c.mps)
            e4, v4 = en(a.mps)
            need(abs(e3 - e4) < 1e-6 * nh and abs(ec - ea) < 1e-6 * nh, '{} {}: continued from sweep {} to {}: energy {} (returned {}) instead of {} ({})', kind, solver, k, Nmax, e3, ec, e4, ea)
    return Nmax > k and n >= 3 and D > 1, kind


FACETS = [
    Facet('state', s_state, r_state, 500, rule='entangled state with operations after loading'),
    Facet('infinite', s_inf, r_inf, 200, rule='entangled unit cell with operations before saving'),
    Facet('engine', s_engine, r_engine, 200, rule='three or more sites with bond dimension above 1'),
    Facet('checkpoint', s_cp, r_cp, 160, rule='at least one checkpoint before the end, nothing truncated'),
    Facet('checkpoint-cut', s_cpt, r_cpt, 120, rule='a checkpoint before the end of a run that truncates'),
    Facet('dmrg-checkpoint', s_dm, r_dm, 120, rule='sweeps left after the checkpoint'),
]
