#!/usr/bin/env python3
"""Driver: python3-vt run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Hypothesis generates and shrinks the cases (CPython); each case is executed by a PyPy worker process (the interpreter
PyTeN is installed for) against /repo's current working tree and compared there with an explicit oracle.
Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check itself failed."""
import sys, os, json, time, subprocess, hashlib, threading, queue, tempfile, shutil, argparse, importlib, signal, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, 'harness'))
sys.path.insert(0, os.path.join(VERIF, 'props'))
PYPY = os.environ.get('VERIF_PY', '/opt/pvenv/bin/python')
SHARDS = int(os.environ.get('VERIF_SHARDS', '8'))
GEN_CAP = {'quick': 330.0, 'thorough': 6 * 3600.0}      # wall seconds after which a shard stops generating
SHRINK_CAP = 60.0


def canon(case):
    return json.dumps(case, sort_keys=True)


class HarnessError(Exception):
    pass


class StopShrink(BaseException):
    pass


class Worker:
    def __init__(self, prop, scratch):
        self.prop, self.scratch = prop, scratch
        self.proc = None
        self.history = []

    def start(self):
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg',
                   MPLCONFIGDIR=os.path.join(self.scratch, 'mpl'), PYTHONHASHSEED='0', HOME=self.scratch,
                   TMPDIR=self.scratch)
        env.pop('PYTHONPATH', None)
        os.makedirs(env['MPLCONFIGDIR'], exist_ok=True)
        self.proc = subprocess.Popen([PYPY, os.path.join(VERIF, 'harness', 'worker.py'), self.prop],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=self.scratch, env=env,
                                     universal_newlines=True, bufsize=1)
        self.q = queue.Queue()
        self.history = []
        t = threading.Thread(target=self._pump, args=(self.proc, self.q), daemon=True)
        t.start()
        a = self._get(300)
        if a is None or not a.get('ready'):
            raise StartFailure((a or {}).get('tb', 'worker did not start'))

    @staticmethod
    def _pump(proc, q):
        for line in proc.stdout:
            q.put(line)
        q.put(None)

    def _get(self, timeout):
        try:
            line = self.q.get(timeout=timeout)
        except queue.Empty:
            return None
        if line is None:
            return {'dead': True}
        return json.loads(line)

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.kill()
                self.proc.wait(10)
            except Exception:
                pass
            self.proc = None

    def run(self, facet, case, timeout):
        if self.proc is None:
            self.start()
        self.history.append((facet, case))
        try:
            self.proc.stdin.write(json.dumps({'facet': facet, 'case': case}) + '\n')
            self.proc.stdin.flush()
        except (BrokenPipeError, OSError):
            self.stop()
            return {'ok': False, 'kind': 'crash', 'msg': 'the process running the library died'}
        a = self._get(timeout)
        if a is None:
            self.stop()
            return {'ok': False, 'kind': 'timeout', 'msg': 'no result within %d s' % timeout}
        if a.get('dead'):
            self.stop()
            return {'ok': False, 'kind': 'crash', 'msg': 'the process running the library died'}
        return a


class StartFailure(Exception):
    pass


def load_prop(prop):
    return importlib.import_module(prop.lower())


def shard_main(args):
    from hypothesis import given, settings, seed, HealthCheck, Phase, strategies as st
    import hypothesis
    mod = load_prop(args.prop)
    scratch = args.scratch
    t0 = time.time()
    w = Worker(args.prop, scratch)
    res = {'facets': {}, 'failure': None, 'error': None, 'capped': False}
    only = os.environ.get('VERIF_FACETS')
    try:
        for fi, f in enumerate(mod.FACETS):
            if only and f.name not in only.split(','):
                continue
            n = f.quick if args.tier == 'quick' else f.thorough
            n = int(n * float(os.environ.get('VERIF_SCALE', '1')))
            share = n // args.shards + (1 if args.shard < n % args.shards else 0)
            stat = {'ev': 0, 'nt': [], 'tags': {}, 'samples': [], 'shrink_ev': 0, 'wall': 0.0}
            res['facets'][f.name] = stat
            tf = time.time()
            best = {}
            ntset = set()

            def execute(case):
                if best and time.time() - best['t'] > SHRINK_CAP:
                    raise StopShrink()
                if not best and time.time() - t0 > GEN_CAP[args.tier]:
                    res['capped'] = True
                    return
                a = w.run(f.name, case, f.case_timeout)
                if best:
                    stat['shrink_ev'] += 1
                else:
                    stat['ev'] += 1
                if a['ok']:
                    if not best:
                        tag = a.get('tag') or ''
                        if tag:
                            for tg in tag.split('|'):
                                stat['tags'][tg] = stat['tags'].get(tg, 0) + 1
                        if a['nt']:
                            c = canon(case)
                            h = hashlib.sha256(c.encode()).hexdigest()[:16]
                            if h not in ntset:
                                ntset.add(h)
                                if len(stat['samples']) < 3:
                                    stat['samples'].append(case)
                else:
                    c = canon(case)
                    if not best:
                        best['t'] = time.time()
                        best['hist'] = list(w.history)
                        best['first'] = (case, a)
                    if 'case' not in best or (len(c), c) <= (len(canon(best['case'])), canon(best['case'])):
                        best['case'] = case
                        best['ans'] = a
                    raise AssertionError('property violated (%s)' % a['kind'])

            try:
                if args.shard == 0:
                    for case in f.examples:
                        execute(case)
                elif f.examples and args.shards == 1:
                    pass
                if share > 0:
                    s = int(hashlib.sha256(('%s/%s/%d/%d' % (args.prop, f.name, args.seed, args.shard)).encode()).hexdigest()[:12], 16)
                    tst = settings(max_examples=share, deadline=None, database=None, print_blob=False,
                                   report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                                   phases=(Phase.generate, Phase.shrink))(
                        seed(s)(given(f.strategy(st))(execute)))
                    tst()
            except StopShrink:
                pass
            except StartFailure:
                raise
            except BaseException as e:
                if not best:
                    raise
            stat['nt'] = sorted(ntset)
            stat['wall'] = time.time() - tf
            if best:
                res['failure'] = {'facet': f.name, 'case': best['case'], 'ans': best['ans'], 'first_case': best['first'][0],
                                  'first_ans': best['first'][1], 'hist': best['hist'][-400:]}
                break
    except StartFailure as e:
        res['start_failure'] = str(e)
    except BaseException:
        res['error'] = traceback.format_exc()
    finally:
        w.stop()
    with open(args.out + '.tmp', 'w') as fh:
        json.dump(res, fh)
    os.rename(args.out + '.tmp', args.out)


def confirm(prop, facet, cases, scratch, timeout):
    """replay in a fresh worker; returns the answer of the last case"""
    w = Worker(prop, scratch)
    try:
        a = None
        for fc, c in cases:
            a = w.run(fc, c, timeout)
        return a
    finally:
        w.stop()


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def write_replay(prop, payload):
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(canon(payload).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(p, 'w') as fh:
        json.dump(payload, fh, indent=1)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--shard', type=int)
    ap.add_argument('--shards', type=int, default=SHARDS)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--scratch')
    ap.add_argument('--out')
    args = ap.parse_args()
    if args.shard is not None:
        return shard_main(args)
    t0 = time.time()
    mod = load_prop(args.prop)
    facets = {f.name: f for f in mod.FACETS}
    scratch = tempfile.mkdtemp(prefix='pyten-verif-')
    procs = []
    try:
        if args.replay:
            rp = json.load(open(args.replay))
            cases = [(c['facet'], c['case']) for c in rp['cases']]
            a = confirm(args.prop, None, cases, scratch, facets[cases[-1][0]].case_timeout)
            print(json.dumps(a, indent=1))
            if not a['ok']:
                print('VIOLATION property=%s replay=%s' % (args.prop, args.replay))
                return 1
            return 0
        env = dict(os.environ)
        env.update(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        for i in range(args.shards):
            sd = os.path.join(scratch, 's%d' % i)
            os.makedirs(sd)
            out = os.path.join(scratch, 'out%d.json' % i)
            log = open(os.path.join(scratch, 'log%d' % i), 'w')
            p = subprocess.Popen([sys.executable, os.path.abspath(__file__), args.prop, '--tier', args.tier, '--shard', str(i),
                                  '--shards', str(args.shards), '--seed', str(args.seed), '--scratch', sd, '--out', out],
                                 stdout=log, stderr=log, cwd=sd, env=env, start_new_session=True)
            procs.append((p, out, log.name))
        pending = dict((i, x) for i, x in enumerate(procs))
        results = {}
        failed = False
        while pending:
            for i, (p, out, log) in list(pending.items()):
                if p.poll() is not None:
                    del pending[i]
                    if not os.path.exists(out):
                        raise HarnessError('shard %d gave no result:\n%s' % (i, open(log).read()[-3000:]))
                    results[i] = json.load(open(out))
                    if results[i]['error']:
                        raise HarnessError(results[i]['error'])
                    if results[i].get('start_failure') or results[i]['failure']:
                        failed = True
            if failed:
                break
            time.sleep(0.05)
        if failed:   # the other shards are not needed any more
            for i, (p, out, log) in pending.items():
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        # ---------------------------------------------------------------- verdict
        violation = None
        for i in sorted(results):
            r = results[i]
            if r.get('start_failure'):
                violation = {'property': args.prop, 'kind': 'import', 'msg': 'the library could not be imported: ' + r['start_failure'],
                             'cases': []}
                break
            if r['failure']:
                fl = r['failure']
                to = facets[fl['facet']].case_timeout
                tries = [([(fl['facet'], fl['case'])], fl['ans']), ([(fl['facet'], fl['first_case'])], fl['first_ans']),
                         ([tuple(x) for x in fl['hist']], fl['first_ans'])]
                for cases, ans in tries:
                    a = confirm(args.prop, None, cases, os.path.join(scratch, 's%d' % i), to)
                    if not a['ok']:
                        violation = {'property': args.prop, 'kind': a['kind'], 'msg': a['msg'], 'tb': a.get('tb', ''), 'seed': args.seed,
                                     'cases': [{'facet': x[0], 'case': x[1]} for x in cases]}
                        break
                if violation is None:
                    raise HarnessError('a failure did not reproduce in a fresh process: %s' % json.dumps(fl['first_ans']))
                break
        # ---------------------------------------------------------------- known findings
        lines = []
        if violation is None:
            kf = [k for k in known_findings() if k['property'] == args.prop and k['status'] == 'open']
            if kf:
                w = Worker(args.prop, scratch)
                for k in kf:
                    a = w.run(k['facet'], k['case'], facets[k['facet']].case_timeout)
                    if not a['ok']:
                        lines.append('KNOWN-FINDING: property=%s %s' % (args.prop, k['what']))
                    else:
                        lines.append('note: the recorded finding %s no longer fails' % k['id'])
                w.stop()
        # ---------------------------------------------------------------- evidence
        per = {}
        for r in results.values():
            for name, s in r['facets'].items():
                d = per.setdefault(name, {'evaluations': 0, '_nt': set(), 'samples': [], 'classes': {}, 'rule': facets[name].rule, 'wall_s': 0.0})
                d['evaluations'] += s['ev']
                d['_nt'] |= set(s['nt'])
                d['samples'] += s['samples']
                d['wall_s'] = max(d['wall_s'], round(s['wall'], 2))
                for k, v in s['tags'].items():
                    d['classes'][k] = d['classes'].get(k, 0) + v
        samples = []
        for name, d in per.items():
            d['distinct_nontrivial'] = len(d.pop('_nt'))
            sm = sorted(d.pop('samples'), key=lambda c: -len(canon(c)))
            samples += [{'facet': name, 'case': c} for c in sm[len(sm) // 2:][:2]]
        ev = {'property': args.prop, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration',
              'coverage': {'evaluations': sum(d['evaluations'] for d in per.values()),
                           'distinct_nontrivial': sum(d['distinct_nontrivial'] for d in per.values()),
                           'rule': mod.RULE + ' Distinct: by the canonical JSON of the case. Per facet: see "facets".',
                           'samples': samples[:40], 'facets': per,
                           'stopped_by_time_cap': any(r['capped'] for r in results.values()),
                           'known_findings': lines},
              'assumptions': getattr(mod, 'ASSUMPTIONS', []),
              'wall_s': round(time.time() - t0, 2), 'violations': 0 if violation is None else 1}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', args.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        for l in lines:
            print(l)
        if violation is not None:
            rp = write_replay(args.prop, violation)
            print('%s: %s' % (violation['kind'], violation['msg'][:2000]))
            if violation.get('tb'):
                print(violation['tb'][-1500:])
            for c in violation['cases'][-1:]:
                print('minimal case: facet=%s %s' % (c['facet'], json.dumps(c['case'])[:1500]))
            print('VIOLATION property=%s replay=%s' % (args.prop, rp))
            return 1
        print('%s %s: held on %d cases (%d distinct non-trivial), %.0f s' % (
            args.prop, args.tier, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
        return 0
    except HarnessError as e:
        print('HARNESS ERROR: %s' % e)
        return 2
    finally:
        for p, out, log in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
