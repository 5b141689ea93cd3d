"""C13: TEBD performs the second-order Trotter evolution it claims."""
from spec import Facet, Skip, need
import gen, c10

RULE = 'Non-trivial: at least three sites with couplings, at least one step of a non-zero time step on an entangling Hamiltonian.'
ASSUMPTIONS = ['time is the accumulated |Im dt|: real-time evolution by t uses dt=-i*t, imaginary-time steps (real dt) do not advance it',
               'the engine normalises the state after every step',
               'cases with Schmidt values within 1e-5 of each other at a cut, or at the threshold, are skipped in the truncation model']


def load():
    global q, np, L, E, Hm, expm
    import numpy as np, qlib as q
    L = q.lib()
    c10.load()
    expm = c10.expm
    import lib.mpslib.engines as E
    import lib.mpslib.Hamiltonians as Hm


def dts(st):
    x = st.sampled_from([0.05, -0.05, 0.2, 1e-3, 0.5])
    return st.one_of(x.map(lambda v: [0.0, v]), x.map(lambda v: [0.0, v]), st.sampled_from([-0.05, -0.2, 0.1]).map(lambda v: [v, 0.0]),
                     st.tuples(st.sampled_from([-0.1, -0.02]), x).map(list))


def sim(st):
    @st.composite
    def f(draw):
        h = draw(c10.tri_strategy(st))
        h['d'] = [max(2, x) for x in h['d']]
        s = draw(gen.state(st, d=h['d'], Dmax=4, kinds=['rand', 'rand', 'prod', 'ghz', 'low', 'decay'], z=False))
        s['z'] = draw(st.sampled_from([1.0, 1.0, 0.3, 20.0]))        # the norm is dropped, a phase of the norm factor would be too
        return {'h': h, 's': s}
    return f()


def calls(st, small=False):
    c = st.tuples(dts(st), st.integers(0, 3), st.integers(0, 2), st.sampled_from([0, 0, 1, 2, 3]), st.booleans().map(int)).map(list)
    return st.lists(c, min_size=1, max_size=3)


def layers(n):
    return list(range(0, n - 1, 2)), list(range(1, n - 1, 2))


def dense_step(x, d, hs, dt, first, last):
    """one Trotter step on the dense state with the even half steps as told"""
    ev, od = layers(len(d))

    def lay(x, ns, tau):
        for n in ns:
            g = expm(tau * hs[n]).reshape(d[n], d[n + 1], d[n], d[n + 1])
            x = q.apply2(x, g, n)
        return x
    x = lay(x, ev, dt / 2)
    x = lay(x, od, dt)
    x = lay(x, ev, dt / 2)
    return x / np.linalg.norm(x)


def s_trot(st):
    return st.tuples(sim(st), calls(st), st.booleans().map(int)).map(list)


def r_trot(case):
    c, prog, use_reset = case
    ts, hs, H = c10.tri(c['h'])
    d = c['h']['d']
    n = len(d)
    m = q.mk(c['s'])
    x0 = q.vec(m)
    mpo = Hm.MPO(ts)
    eng = E.TimeEvolutionEngine(m, mpo, 'tebd')
    x = x0 / np.linalg.norm(x0)
    t, it, nt = 0.0, 0, False
    scale = max(1.0, max(np.linalg.norm(h, 2) for h in hs))
    for k, (dt, steps, verb, cp, keep) in enumerate(prog):
        dt = c10.tau_of([dt[0] / scale, dt[1] / scale])
        what = 'doTEBD(dt=%s, numsteps=%d, verbose=%d, cp=%s, keep_cp=%s) [call %d]' % (dt, steps, verb, cp or None, bool(keep), k)
        out = eng.doTEBD(dt=dt, numsteps=steps, Dmax=10**4, tr_thresh=1e-15, verbose=verb, cp=cp or None, keep_cp=bool(keep))
        for _ in range(steps):
            x = dense_step(x, d, hs, dt, True, True)
        t += steps * abs(np.imag(dt))
        it += steps
        y = q.vec(eng.mps)
        if steps or k:
            pass
        q.check_shapes(eng.mps, d, what)
        ny = np.linalg.norm(y)
        if it:
            need(abs(ny - 1) < 1e-9, '{}: norm {}', what, ny)
        q.need_close(y / ny, x, 'state after ' + what, tol=1e-8)
        q.check_canonical(eng.mps, what)
        need(abs(eng.time - t) < 1e-10, '{}: time {} instead of {}', what, eng.time, t)
        need(eng.iteration == it, '{}: iteration {} instead of {}', what, eng.iteration, it)
        need(abs(eng.truncatedWeight) < 1e-10, '{}: truncated weight {} without truncation', what, eng.truncatedWeight)
        need(len(out) == 2 and abs(out[1] - t) < 1e-10 and out[0] == eng.truncatedWeight, '{}: returned {}', what, out)
        nt = nt or (steps > 0 and n >= 3 and sum(c['h']['K']) > 0)
    q.need_close(q.vec(m), x0, 'the state handed to the engine', tol=1e-12)
    if use_reset:
        eng.reset()
        need(eng.time == 0 and eng.iteration == 0 and eng.truncatedWeight == 0, 'reset left {} {} {}', eng.time, eng.iteration, eng.truncatedWeight)
        q.need_close(q.vec(eng.mps), y, 'state after reset', tol=1e-12)
    return nt, 'N%d' % n


# ---------------------------------------------------------------- truncation: dense model that truncates at every gate
def s_trunc(st):
    return st.tuples(sim(st), st.lists(st.tuples(dts(st), st.integers(1, 3), st.integers(1, 4), st.sampled_from([1e-15, 1e-3, 0.05, 0.15])).map(list), min_size=1, max_size=2)).map(list)


def r_trunc(case):
    c, prog = case
    ts, hs, H = c10.tri(c['h'])
    d = c['h']['d']
    n = len(d)
    m = q.mk(c['s'])
    eng = E.TimeEvolutionEngine(m, Hm.MPO(ts), 'tebd')
    x = q.vec(m)
    x = x / np.linalg.norm(x)
    tw = 0.0
    cut = False
    scale = max(1.0, max(np.linalg.norm(h, 2) for h in hs))
    ev, od = layers(n)
    bound = max(q.bonds(eng.mps))

    def gate(x, k, tau, Dmax, thr):
        g = expm(tau * hs[k]).reshape(d[k], d[k + 1], d[k], d[k + 1])
        y = q.apply2(x, g, k)
        A = y.reshape(int(np.prod(d[:k + 1])), -1)
        u, s, v = np.linalg.svd(A, full_matrices=False)
        r = int(min(np.sum(s > thr), Dmax))
        if r == 0 or np.any(abs(s - thr) < 1e-5 * max(thr, 1e-10)) and thr > 1e-12 or (r < len(s) and s[r] > 1e-12 and s[r - 1] - s[r] < 1e-5 * s[0]):
            raise Skip('degenerate cut')
        w = np.sum(s[r:] ** 2)
        y = (u[:, :r] * s[:r]).dot(v[:r]).reshape(y.shape)
        return y / np.linalg.norm(y), w
    for k, (dt, steps, Dmax, thr) in enumerate(prog):
        dt = c10.tau_of([dt[0] / scale, dt[1] / scale])
        what = 'doTEBD(dt=%s, numsteps=%d, Dmax=%d, tr_thresh=%g) [call %d]' % (dt, steps, Dmax, thr, k)
        # the engine merges the even half steps of neighbouring steps into one full layer
        seq = [(ev, dt / 2)]
        for s in range(steps):
            seq.append((od[::-1], dt))
            seq.append((ev, dt if s < steps - 1 else dt / 2))
        w_ = 0.0
        for ns, tau in seq:
            for b in ns:
                x, w = gate(x, b, tau, Dmax, thr)
                w_ += w
        tw += w_
        eng.doTEBD(dt=dt, numsteps=steps, Dmax=Dmax, tr_thresh=thr, verbose=0)
        y = q.vec(eng.mps)
        touched = q.bonds(eng.mps)
        need(max(touched[1:n]) <= max(Dmax, 0), '{}: bond dimensions {}', what, touched)
        need(abs(np.linalg.norm(y) - 1) < 1e-9, '{}: norm {}', what, np.linalg.norm(y))
        need(abs(eng.truncatedWeight - tw) < 1e-8 + 1e-6 * tw, '{}: truncated weight {} instead of {}', what, eng.truncatedWeight, tw)
        q.need_close(y, x, 'state after ' + what, tol=1e-6)
        q.check_canonical(eng.mps, what)
        cut = cut or w_ > 1e-8
    return cut and n >= 3, 'truncated' if cut else 'exact'


# ---------------------------------------------------------------- error against the exact evolution, split of the steps over calls
def s_exact(st):
    return st.tuples(sim(st), st.sampled_from([0.02, 0.05, -0.1, 0.2]), st.integers(1, 6), st.lists(st.integers(0, 6), max_size=2)).map(list)


def r_exact(case):
    c, dt, steps, cuts = case
    ts, hs, H = c10.tri(c['h'])
    d = c['h']['d']
    n = len(d)
    m = q.mk(c['s'])
    x = q.vec(m)
    x = x / np.linalg.norm(x)
    nh = max(np.linalg.norm(H, 2), 1e-12)
    dt = dt / max(1.0, nh / 3)
    ev, od = layers(n)
    A = sum([c10.embed(hs[k], k, d) for k in ev], 0 * H)
    B = sum([c10.embed(hs[k], k, d) for k in od], 0 * H)
    cm = lambda a, b: a.dot(b) - b.dot(a)
    per = abs(dt) ** 3 * (np.linalg.norm(cm(B, cm(B, A)), 2) / 12 + np.linalg.norm(cm(A, cm(A, B)), 2) / 24)
    eng = E.TimeEvolutionEngine(m, Hm.MPO(ts), 'tebd')
    left = steps
    for k in cuts + [steps]:
        k = min(k, left)
        left -= k
        eng.doTEBD(dt=-1j * dt, numsteps=k, Dmax=10**4, tr_thresh=1e-15, verbose=0)
    y = q.vec(eng.mps)
    # exp(-i t H) acts on ket indices as [in,out]: row vector times operator
    U = expm(-1j * dt * steps * H)
    ref = x.ravel().dot(U).reshape(x.shape)
    err = np.linalg.norm(y - ref)
    need(err <= steps * per * 1.01 + 1e-9, '{} steps of {}: error {:.3e}, the second-order bound is {:.3e}', steps, dt, err, steps * per)
    need(abs(np.linalg.norm(y) - 1) < 1e-9, 'norm {}', np.linalg.norm(y))
    # and back
    eng.doTEBD(dt=1j * dt, numsteps=steps, Dmax=10**4, tr_thresh=1e-15, verbose=0)
    q.need_close(q.vec(eng.mps), x, 'state after evolving forth and back', tol=1e-8)
    need(abs(eng.time - 2 * steps * abs(dt)) < 1e-10, 'time {}', eng.time)
    return n >= 3 and per > 1e-8, 'N%d' % n


FACETS = [
    Facet('trotter', s_trot, r_trot, 320, rule='steps on three or more coupled sites', thorough=8000),
    Facet('truncated', s_trunc, r_trunc, 480, rule='something was discarded', thorough=10000),
    Facet('exact', s_exact, r_exact, 320, rule='non-zero second-order error bound', thorough=8000),
]
