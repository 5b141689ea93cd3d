"""Infinite states given by a unit cell: strategies (CPython) and dense oracles (PyPy)."""
import gen


def cell(st, nmin=1, nmax=4, Dmin=1, Dmax=5, dmax=3, kinds=None, cplx=None, wrap=1, uniform=False):
    """unit cell: local dims d, bond dims D (D[i] = left bond of site i, periodic), kind, complex flag, seed, scale factor"""
    @st.composite
    def f(draw):
        n = draw(st.integers(nmin, nmax))
        dd = [draw(st.integers(2, dmax))] * n if uniform else [draw(st.integers(2, dmax)) for _ in range(n)]
        DD = [draw(st.integers(Dmin, Dmax)) for _ in range(n)]
        DD[0] = max(DD[0], wrap)
        c = draw(st.booleans()) if cplx is None else cplx
        return {'d': dd, 'D': DD, 'k': draw(st.sampled_from(kinds or KINDS)), 'c': int(c),
                'f': draw(st.sampled_from([1.0, 1.0, -1.0, 1e-2, 20.0])), 's': draw(gen.seeds(st))}
    return f()


KINDS = ['rand', 'rand', 'decay', 'near', 'left', 'right', 'pos']


def build(case, salt=0):
    import numpy as np
    import qlib as q
    d, D, c, k = case['d'], case['D'], case['c'], case['k']
    n = len(d)
    r = q.rng('cell', case['s'], salt)
    out = []
    for i in range(n):
        sh = (D[i], D[(i + 1) % n], d[i])
        t = q.gauss(r, sh, c)
        if k == 'decay':
            t = t * (10.0 ** (-0.35 * np.arange(sh[1])))[None, :, None]
        elif k == 'near':
            u = np.zeros(sh)
            u[0, 0, :] = 1.0
            t = 0.4 * t + u * 2
        elif k == 'pos':
            t = np.abs(t.real) + 0.1
            if c:
                t = t + 0.2j * r.randn(*sh)
        elif k == 'left' and sh[0] * sh[2] >= sh[1]:
            a, _ = np.linalg.qr(np.transpose(t, (0, 2, 1)).reshape(-1, sh[1]))
            t = np.transpose(a.reshape(sh[0], sh[2], sh[1]), (0, 2, 1))
        elif k == 'right' and sh[1] * sh[2] >= sh[0]:
            a, _ = np.linalg.qr(t.reshape(sh[0], -1).T)
            t = a.T.reshape(sh)
        out.append(t)
    out[0] = out[0] * case['f']
    return [t.astype(complex if c else float) for t in out]


def of_mps(m):
    """unit cell tensors of an MPS object with centre matrix and connector absorbed"""
    import numpy as np
    ts = [np.array(t) for t in m._tensors]
    p = m._position
    if p < len(ts):
        ts[p] = np.tensordot(m._mat, ts[p], ([1], [0]))
    else:
        ts[-1] = np.swapaxes(np.tensordot(ts[-1], m._mat, ([1], [0])), 1, 2)
    ts[-1] = np.swapaxes(np.tensordot(ts[-1], m._connector, ([1], [0])), 1, 2)
    return ts


def tm(A, B=None, op=None):
    """transfer matrix of one site, rows (a,a') columns (b,b'); A unconjugated, B conjugated, op[ket,bra]"""
    import numpy as np
    B = A if B is None else B
    if op is not None:
        A = np.tensordot(A, op, ([2], [0]))
    x = np.tensordot(A, B.conj(), ([2], [2]))      # a b a' b'
    x = np.transpose(x, (0, 2, 1, 3))
    return x.reshape(A.shape[0] * B.shape[0], A.shape[1] * B.shape[1])


def cell_tm(As, Bs=None):
    Bs = Bs or As
    x = tm(As[0], Bs[0])
    for a, b in zip(As[1:], Bs[1:]):
        x = x.dot(tm(a, b))
    return x


class Inf:
    """dense fixed points of a unit cell"""

    def __init__(self, ts):
        import numpy as np
        self.ts = ts
        self.n = len(ts)
        E = cell_tm(ts)
        self.E = E
        w, v = np.linalg.eig(E)
        o = np.argsort(-np.abs(w))
        self.spec = w[o] / w[o][0]
        self.eta = w[o][0]
        self.gap = abs(self.spec[1]) if len(w) > 1 else 0.0
        D = ts[0].shape[0]
        r = v[:, o[0]]
        w2, v2 = np.linalg.eig(E.T)
        l = v2[:, np.argmin(np.abs(w2 - self.eta))]
        self.r = self.fix(r.reshape(D, D))
        self.l = self.fix(l.reshape(D, D))
        self.nrm = np.sum(self.l * self.r)

    @staticmethod
    def fix(x):
        import numpy as np
        t = np.trace(x)
        x = x / t if abs(t) > 1e-14 else x
        return (x + x.conj().T) / 2

    def good(self, gap=0.97, low=1e-7):
        """injective with a spectral gap and well-conditioned fixed points"""
        import numpy as np
        if not abs(self.eta) > 1e-12 or self.gap > gap or abs(self.eta.imag if isinstance(self.eta, complex) else 0) > 1e-8 * abs(self.eta):
            return False
        return np.linalg.eigvalsh(self.l)[0] > low and np.linalg.eigvalsh(self.r)[0] > low

    def cond(self):
        import numpy as np
        return min(np.linalg.eigvalsh(self.l)[0], np.linalg.eigvalsh(self.r)[0])

    def bond(self, b):
        """(l, r) fixed points at the left bond of site b, normalised so that sum(l*r)=1"""
        import numpy as np
        x = self.l.reshape(-1)
        y = self.r.reshape(-1)
        for i in range(b):
            x = x.dot(tm(self.ts[i]))
        for i in range(self.n - 1, b - 1, -1):
            y = tm(self.ts[i]).dot(y)
        D = self.ts[b % self.n].shape[0]
        z = x.dot(y)
        x, y = x / np.sqrt(z), y / np.sqrt(z)
        return x.reshape(D, D), y.reshape(D, D)

    def schmidt(self, b):
        """Schmidt values at the left bond of site b (singular values of sqrt(l)^T sqrt(r))"""
        import numpy as np
        l, r = self.bond(b % self.n)
        # l[a,a'] = sum L conj(L): reduced density matrix eigenvalues are those of l^T r
        w = np.linalg.eigvals(l.T.dot(r))
        w = np.sort(np.abs(w))[::-1]
        s = np.sqrt(w)
        return s / np.linalg.norm(s)

    def expect(self, ops):
        """expectation value of a product of one-site operators {absolute site: op}"""
        last = max(ops)
        x = self.l.reshape(-1)
        k = 0
        while True:
            for i in range(self.n):
                x = x.dot(tm(self.ts[i], op=ops.get(k)))
                k += 1
            x = x / self.eta
            if k > last:
                break
        return x.dot(self.r.reshape(-1)) / self.nrm


def fidelity(As, Bs):
    """|dominant mixed eigenvalue|^2 / (eta_A eta_B): 1 iff the infinite states agree"""
    import numpy as np
    m = np.max(np.abs(np.linalg.eigvals(cell_tm(As, Bs))))
    a = np.max(np.abs(np.linalg.eigvals(cell_tm(As))))
    b = np.max(np.abs(np.linalg.eigvals(cell_tm(Bs))))
    return m * m / (a * b)


def observables(case, ndist=3):
    """a few operators for the cell: list of {site: op}"""
    import qlib as q
    r = q.rng('obs', case['s'])
    d = case['d']
    n = len(d)
    out = [{i: q.rand_op(r, d[i], 1)} for i in range(n)]
    for _ in range(ndist):
        i = int(r.randint(n))
        j = i + 1 + int(r.randint(2 * n + 1))
        out.append({i: q.rand_op(r, d[i], 1), j: q.rand_op(r, d[j % n], 1)})
    return out


def spec_close(a, b):
    """distance of two spectra as multisets (missing values count as zero); both sorted by modulus"""
    import numpy as np
    k = max(len(a), len(b))
    a = list(np.concatenate([a, np.zeros(k - len(a))]))
    b = list(np.concatenate([b, np.zeros(k - len(b))]))
    worst = 0.0
    for x in a:
        j = int(np.argmin(np.abs(np.array(b) - x)))
        worst = max(worst, abs(b[j] - x))
        b.pop(j)
    return worst
