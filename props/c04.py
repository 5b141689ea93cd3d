"""C04: arithmetic on MPS is arithmetic on the dense vectors."""
from spec import Facet, need, Skip
import gen

RULE = 'Non-trivial: the program contains at least one sum or difference of different states and at least two further operations.'
ASSUMPTIONS = ['numpy scalars from the left (np.float64*MPS) are excluded, as the documentation of __rmul__ says',
               'a state whose vector cancels to less than 1e-6 of its summands is not moved or measured']

OPS = ['add', 'sub', 'neg', 'mul', 'rmul', 'div', 'imul', 'idiv', 'iadd', 'isub', 'conj', 'conjugate', 'copy', 'pos', 'sweep', 'pospos']


def load():
    global q, np, L
    import numpy as np
    import qlib as q
    L = q.lib()


def s_prog(st):
    @st.composite
    def f(draw):
        a = draw(gen.state(st, Dmax=4, cap=400, nmax=6))
        leaves = [a] + [draw(gen.state(st, d=a['d'], Dmax=4)) for _ in range(draw(st.integers(1, 2)))]
        ins = st.tuples(st.sampled_from(OPS), st.integers(0, 9), st.integers(0, 9), gen.scalar(st)).map(list)
        return [leaves, draw(st.lists(ins, min_size=1, max_size=7)), draw(st.booleans()).__int__()]
    return f()


def r_prog(case):
    leaves, prog, npscal = case
    d = leaves[0]['d']
    n = len(d)
    ms = [q.mk(s, i) for i, s in enumerate(leaves)]
    xs = [q.vec(m) for m in ms]
    sc = [np.linalg.norm(x) for x in xs]
    flat = [True] * len(ms)      # single canonical state (no sum yet)
    nsum = nother = 0

    def chk(what):
        for i, m in enumerate(ms):
            q.check_shapes(m, d, 'value %d after %s' % (i, what))
            q.need_close(q.vec(m), xs[i], 'value %d after %s' % (i, what), scale=max(sc[i], 1e-12))
            if np.iscomplexobj(m._tensors[0]) and np.linalg.norm(np.imag(xs[i])) > 1e-6 * sc[i]:
                need(np.issubdtype(m.dtype, np.complexfloating), 'value {} is complex after {} but has dtype {}', i, what, m.dtype)
    for k, (op, i, j, s) in enumerate(prog):
        i %= len(ms)
        j %= len(ms)
        s = q.num(s)
        if npscal and op not in ('rmul',):
            s = np.complex128(s) if isinstance(s, complex) else np.float64(s)
        what = '%s(%d,%d) [instruction %d]' % (op, i, j, k)
        big = max(max(q.bonds(m)) for m in ms) > 40
        if op in ('add', 'sub', 'iadd', 'isub') and big:
            continue
        new = None
        if op == 'add':
            new = (ms[i] + ms[j], xs[i] + xs[j], sc[i] + sc[j])
            nsum += i != j
        elif op == 'sub':
            new = (ms[i] - ms[j], xs[i] - xs[j], sc[i] + sc[j])
            nsum += i != j
        elif op == 'neg':
            new = (-ms[i], -xs[i], sc[i])
        elif op == 'mul':
            new = (ms[i] * s, xs[i] * s, sc[i] * abs(s))
        elif op == 'rmul':
            new = (s * ms[i], xs[i] * s, sc[i] * abs(s))
        elif op == 'div':
            new = (ms[i] / s, xs[i] / s, sc[i] / abs(s))
        elif op == 'copy':
            new = (ms[i].copy(), xs[i], sc[i])
            need(new[0].pos == ms[i].pos and new[0].D == ms[i].D and new[0].obc == ms[i].obc and new[0].Dmax == ms[i].Dmax
                 and new[0].dtype == ms[i].dtype, 'copy has other attributes than the original')
        elif op == 'conjugate':
            new = (ms[i].conjugate(), xs[i].conj(), sc[i])
        elif op == 'conj':
            ms[i].conj()
            xs[i] = xs[i].conj()
        elif op in ('imul', 'idiv', 'iadd', 'isub'):
            t = ms[i]
            if op == 'imul':
                t *= s
                xs[i], sc[i] = xs[i] * s, sc[i] * abs(s)
            elif op == 'idiv':
                t /= s
                xs[i], sc[i] = xs[i] / s, sc[i] / abs(s)
            elif op == 'iadd':
                t += ms[j]
                xs[i], sc[i] = xs[i] + xs[j], sc[i] + sc[j]
                nsum += i != j
            else:
                t -= ms[j]
                xs[i], sc[i] = xs[i] - xs[j], sc[i] + sc[j]
                nsum += i != j
            ms[i] = t
        elif np.linalg.norm(xs[i]) > 1e-6 * sc[i]:
            if op == 'pos':
                ms[i].position(j % (n + 1))
            elif op == 'pospos':
                ms[i].position(n // 2)
            else:
                ms[i].position(0)
                ms[i].position(n)
                q.check_canonical(ms[i], 'swept value %d' % i)
        nother += op not in ('add', 'sub', 'iadd', 'isub')
        if new is not None:
            need(isinstance(new[0], L.MPS), '{} returned {}', what, type(new[0]))
            need(all(new[0] is not m for m in ms), '{} returned one of its operands', what)
            if len(ms) < 5:
                ms.append(new[0]); xs.append(new[1]); sc.append(new[2])
            else:
                for m in ms:         # no aliasing of arrays with any operand
                    for a in new[0]._tensors:
                        for b in m._tensors:
                            need(not np.shares_memory(a, b), 'result of {} shares memory with an operand', what)
                q.check_shapes(new[0], d, what)
                q.need_close(q.vec(new[0]), new[1], 'result of ' + what, scale=max(new[2], 1e-12))
                new[0].position(0) if np.linalg.norm(new[1]) > 1e-6 * new[2] else None
        chk(what)
    # later changes of one value never reach another
    for i, m in enumerate(ms):
        if np.linalg.norm(xs[i]) > 1e-6 * sc[i]:
            m.position(0)
            m.position(n)
            nv = m.dot(m)
            need(abs(nv - np.linalg.norm(xs[i]) ** 2) <= 1e-8 * sc[i] ** 2, 'squared norm of value {}: {} instead of {}', i, nv,
                 np.linalg.norm(xs[i]) ** 2)
        for t in m._tensors:
            t *= 0.0
        xs[i] = xs[i] * 0.0
        chk('overwriting the tensors of value %d' % i)
    return nsum > 0 and nother > 1, '%d sums' % nsum


# ---------------------------------------------------------------- vector space laws on chains too long for dense vectors
def s_laws(st):
    @st.composite
    def f(draw):
        a = draw(gen.state(st, kinds=['rand', 'decay', 'ghz'], nmax=11, cap=10**6, dmax=3, Dmax=5))
        b = draw(gen.state(st, d=a['d'], kinds=['rand', 'ghz', 'prod'], Dmax=5))
        c = draw(gen.state(st, d=a['d'], kinds=['rand', 'ghz', 'prod'], Dmax=5))
        return [a, b, c, draw(gen.scalar(st)), draw(gen.scalar(st))]
    return f()


def r_laws(case):
    a, b, c, s, t = case
    A, B, C = q.mk_long(a, 1), q.mk_long(b, 2), q.mk_long(c, 3)
    s, t = q.num(s), q.num(t)
    R = A * s + t * B - C
    for probe, name in ((A, 'A'), (B, 'B'), (C, 'C')):
        got = R.dot(probe)
        want = A.dot(probe) * s + B.dot(probe) * t - C.dot(probe)
        sc = (abs(A._Z * s) + abs(B._Z * t) + abs(C._Z)) * abs(probe._Z)
        need(abs(got - want) <= 1e-9 * sc, '<{}|sA+tB-C> = {} instead of {}', name, got, want)
    n2 = R.dot(R)
    want = sum((x * y.conjugate()) * m.dot(k) for x, m in ((s, A), (t, B), (-1.0, C)) for y, k in ((complex(s), A), (complex(t), B), (complex(-1), C)))
    sc = (abs(A._Z * s) + abs(B._Z * t) + abs(C._Z)) ** 2
    need(abs(n2 - want) <= 1e-9 * sc, 'norm of sA+tB-C: {} instead of {}', n2, want)
    return max(q.bonds(A)) > 1 and len(A) > 5, 'n=%d' % len(A)


FACETS = [
    Facet('program', s_prog, r_prog, 1600, rule='at least one sum/difference of different states and two other operations'),
    Facet('laws', s_laws, r_laws, 400, rule='more than five sites, a bond dimension above 1'),
]
