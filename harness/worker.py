"""PyPy side: executes cases of one property against /repo's working tree.  One JSON request per line on fd 0,
one JSON answer per line on a private descriptor (the library prints a lot to stdout)."""
import sys, os, json, importlib, traceback, random, hashlib, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def main():
    prop = sys.argv[1]
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, 'w')
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
    sys.path.insert(0, os.path.join(VERIF, 'props'))
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    try:
        import numpy as np
        import matplotlib
        matplotlib.use('Agg')
        from spec import Violation, Skip
        mod = importlib.import_module(prop.lower())
        if hasattr(mod, 'load'):
            mod.load()
        facets = {f.name: f for f in mod.FACETS}
    except BaseException:
        out.write(json.dumps({'ready': False, 'tb': traceback.format_exc()}) + '\n')
        return
    out.write(json.dumps({'ready': True}) + '\n')
    for line in sys.stdin:
        req = json.loads(line)
        case = req['case']
        h = int(hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:8], 16)
        np.random.seed(h)
        random.seed(h)
        try:
            r = facets[req['facet']].run(case)
            tag = ''
            if isinstance(r, tuple):
                r, tag = r
            ans = {'ok': True, 'nt': bool(r), 'tag': tag}
        except Skip as e:
            ans = {'ok': True, 'nt': False, 'tag': 'skip:' + str(e)}
        except Violation as e:
            ans = {'ok': False, 'msg': str(e), 'kind': 'oracle'}
        except KeyboardInterrupt:
            raise
        except BaseException as e:   # SystemExit included: the library calls sys.exit on some errors
            ans = {'ok': False, 'msg': '%s: %s' % (type(e).__name__, e), 'kind': 'exception',
                   'tb': traceback.format_exc()[-3000:]}
        try:
            out.write(json.dumps(ans) + '\n')
        except (BrokenPipeError, OSError):
            os._exit(0)


if __name__ == '__main__':
    main()
