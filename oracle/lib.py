"""Run-time contract checking of the real code (CPython), searching for failing inputs.

Every property module defines  case(rng, i, ck)  which builds the i-th input, runs the
real code and compares what it did with the contract, and  N = (quick, thorough)
numbers of cases.  The random stream of a case depends only on (seed, i).
"""
import os
import sys
import json
import time
import types
import random
import shutil
import signal
import tempfile
import traceback

REPO = os.environ.get('PYVC_REPO', '/repo')


class Failure(Exception):
    pass


class Timeout(BaseException):
    pass


class Check(object):
    def __init__(self, tier):
        self.tier = tier
        self.desc = ''
        self.evals = 0
        self.skip = False
        self.trivial = False

    def input(self, *a):
        """Describe the input of the case."""
        self.desc = ' '.join(x if isinstance(x, str) else repr(x) for x in a)

    def that(self, cond, msg, *info):
        self.evals += 1
        if not bool(cond):
            raise Failure(msg + (': ' + ', '.join(repr(x) for x in info) if info else ''))

    def eq(self, got, want, msg):
        self.evals += 1
        try:
            ok = bool(got == want)
        except Exception:
            ok = False
        if not ok:
            raise Failure('%s: got %r, expected %r' % (msg, got, want))

    def close(self, got, want, msg, tol=1e-9):
        import numpy as np
        self.evals += 1
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape or not np.allclose(g, w, rtol=tol, atol=tol, equal_nan=True):
            raise Failure('%s: got %r, expected %r' % (msg, g.tolist(), w.tolist()))

    def same(self, got, want, msg):
        """Exact array equality."""
        import numpy as np
        self.evals += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not (g == w).all():
            raise Failure('%s: got %r, expected %r' % (msg, g.tolist(), w.tolist()))

    def raises(self, exc, fun, msg, exact=False):
        self.evals += 1
        try:
            r = fun()
        except exc:
            return
        except Exception as e:
            raise Failure('%s: raised %r instead of %s' % (msg, e, exc))
        raise Failure('%s: no %s raised, returned %r' % (msg, exc, r))


def setup():
    """Make the real code importable: no solver and no expjobs here."""
    tmp = tempfile.mkdtemp(prefix='oracle')
    exe = os.path.join(tmp, 'pomdp-solve')
    with open(exe, 'w') as f:
        f.write('#!/bin/sh\nexit 1\n')
    os.chmod(exe, 0o755)
    os.environ['PATH'] = tmp + os.pathsep + os.environ.get('PATH', '')
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    m = types.ModuleType('expjobs')
    h = types.ModuleType('expjobs.helpers')
    h.Launcher = type('Launcher', (object,), {})
    m.helpers = h
    sys.modules['expjobs'] = m
    sys.modules['expjobs.helpers'] = h
    try:
        import matplotlib
    except ImportError:
        mm = types.ModuleType('matplotlib')
        mm.rcParams = {}
        sys.modules['matplotlib'] = mm
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    return tmp


def run_case(mod, seed, i, ck, limit):
    rng = random.Random('%s/%s/%s' % (mod.__name__, seed, i))
    import numpy as np
    np.random.seed(rng.randrange(2 ** 31))
    ck.desc = ''
    ck.skip = ck.trivial = False

    def alarm(sig, frm):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.case(rng, i, ck)
        return None
    except Failure as e:
        return {'case': i, 'input': ck.desc, 'failed': str(e)}
    except Timeout:
        return {'case': i, 'input': ck.desc, 'failed': 'no answer within %s s' % limit}
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return {'case': i, 'input': ck.desc, 'failed': 'unexpected %r' % e,
                'trace': traceback.format_exc()[-3000:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('module')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', type=int)
    ap.add_argument('--budget', type=float, default=40.)
    ap.add_argument('--factor', type=int, default=1)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--out')
    a = ap.parse_args(argv)
    tmp = setup()
    cwd = os.getcwd()
    work = tempfile.mkdtemp(prefix='oraclewd')
    os.chdir(work)
    res = {'module': a.module, 'cases': 0, 'evaluations': 0, 'distinct': 0, 'samples': [],
           'failure': None, 'complete': False, 'skipped': 0}
    try:
        sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
        try:
            mod = __import__(a.module)
        except BaseException as e:
            res['failure'] = {'case': -1, 'input': 'import', 'failed': 'import failed: %r' % e,
                              'trace': traceback.format_exc()[-3000:]}
            mod = None
        if mod is not None:
            ck = Check(a.tier)
            t0 = time.time()
            seen = set()
            n = mod.N[1 if a.tier == 'thorough' else 0] * a.factor
            limit = getattr(mod, 'LIMIT', 20)
            idx = [a.case] if a.case is not None else range(a.start, a.start + n)
            done = True
            for i in idx:
                f = run_case(mod, a.seed, i, ck, limit)
                if ck.skip:
                    res['skipped'] += 1
                    continue
                res['cases'] += 1
                if ck.desc not in seen and not ck.trivial:
                    seen.add(ck.desc)
                    if len(res['samples']) < 4:
                        res['samples'].append(ck.desc[:600])
                if f is not None:
                    res['failure'] = f
                    break
                if time.time() - t0 > a.budget:
                    done = False
                    break
            res['evaluations'] = ck.evals
            res['distinct'] = len(seen)
            res['complete'] = done
            res['rule'] = getattr(mod, 'RULE', '')
            res['seconds'] = time.time() - t0
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.rmtree(work, ignore_errors=True)
    txt = json.dumps(res)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(txt)
    else:
        print(json.dumps(res, indent=1))
    sys.stdout.flush()
    os._exit(1 if res['failure'] else 0)


if __name__ == '__main__':
    # make "import lib" give this same module to the property modules
    sys.modules['lib'] = sys.modules['__main__']
    main(sys.argv[1:])
