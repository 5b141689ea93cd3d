"""Strategies shared by the properties (CPython side; cases are plain JSON values)."""

KINDS = ['rand', 'low', 'ghz', 'sparse', 'decay', 'int', 'prod']


def seeds(st):
    return st.integers(0, 10**6)


def dims(st, nmin=2, nmax=6, dmin=1, dmax=4, cap=1000, uniform=False):
    """local dimensions whose product stays below cap"""
    def trim(ds):
        out, p = [], 1
        for d in ds:
            if p * d > cap:
                d = 1 if len(out) < nmin else 0
                if d == 0 or dmin > 1:
                    if len(out) >= nmin:
                        break
                    d = dmin
            p *= d
            out.append(d)
        return out
    if uniform:
        return st.tuples(st.integers(nmin, nmax), st.integers(max(dmin, 2), dmax)).map(lambda t: trim([t[1]] * t[0]))
    loc = st.one_of(st.integers(max(dmin, 2), dmax), st.integers(dmin, dmax))
    return st.lists(loc, min_size=nmin, max_size=nmax).map(trim)


def state(st, d=None, kinds=None, Dmax=7, Dmin=1, moves=True, z=True, cplx=None, **kw):
    """a finite open MPS: dims d, inner bonds D, kind k, complex c, entry seed s, centre moves mv, norm factor z"""
    @st.composite
    def f(draw):
        dd = draw(dims(st, **kw)) if d is None else list(d)
        n = len(dd)
        k = draw(st.sampled_from(kinds or KINDS))
        D = [1] * (n - 1) if k == 'prod' else [draw(st.integers(Dmin, Dmax)) for _ in range(n - 1)]
        c = draw(st.booleans()) if cplx is None else cplx
        case = {'d': dd, 'D': D, 'k': k, 'c': int(c), 's': draw(seeds(st))}
        case['mv'] = draw(st.lists(st.integers(0, n), max_size=3)) if moves else []
        if moves and draw(st.integers(0, 3)) == 0:
            case['h'] = 1                                # swept in one direction only: bonds may be wider than necessary
        if z:
            case['z'] = draw(zfac(st, c))
        return case
    return f()


def zfac(st, cplx=False):
    r = st.one_of(st.just(1.0), st.sampled_from([-1.0, 2.0, 0.25, -3.5, 1e-3, 40.0]))
    if cplx:
        return st.one_of(r, st.tuples(st.sampled_from([0.0, 1.0, -0.5]), st.sampled_from([1.0, -2.0])).map(list))
    return r


def scalar(st):
    """a scalar: real number or [re, im]"""
    re = st.sampled_from([1.0, -1.0, 0.5, 2.0, -0.3, 3.0, 1e-2])
    return st.one_of(re, st.tuples(st.sampled_from([0.0, 1.0, -0.7, 0.2]), st.sampled_from([1.0, -1.0, 0.4])).map(list))


def nz(s):
    return s
