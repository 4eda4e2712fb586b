"""Explicit enumeration engine.

A check is a list of families.  A family enumerates, without sampling, a
finite list of scenarios (JSON-able values); `run(scn, ctx)` executes the real
pylogit code on one scenario and compares everything observable with a
reference model.  The engine runs every scenario, counts what was covered,
prints VIOLATION lines, stores replay files and writes the evidence file.
"""
import hashlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
KNOWN_FILE = os.path.join(VERIF, 'known_findings.txt')
MAX_REPORTED = int(os.environ.get("VERIF_MAX_REPORTED", "10"))
SCENARIO_TIMEOUT = 120


class Violation(Exception):
    pass


class ScenarioTimeout(BaseException):
    pass


class Ctx(object):
    """Collects what one scenario did."""

    def __init__(self):
        self.calls = 0
        self.compared = 0
        self.known = []
        self._h = hashlib.md5()

    def call(self, func, *args, **kwargs):
        self.calls += 1
        return func(*args, **kwargs)

    def see(self, *vals):
        """Adds observed values to the outcome digest."""
        for v in vals:
            self._h.update(canon(v).encode())

    def digest(self):
        return self._h.hexdigest()

    def check(self, cond, msg, *detail):
        self.compared += 1
        if not cond:
            raise Violation(msg + ''.join(' | %s' % (_short(d),)
                                          for d in detail))

    def eq(self, got, want, msg):
        self.compared += 1
        if not (type(got) == type(want) and got == want) and got != want:
            raise Violation('%s: got %s want %s' % (msg, _short(got),
                                                    _short(want)))

    def close(self, got, want, msg, rtol=1e-8, atol=1e-9):
        """Elementwise comparison of (nested) sequences of numbers."""
        self.compared += 1
        g, w = flat(got), flat(want)
        if shape(got) != shape(want):
            raise Violation('%s: shape %s, expected %s | got %s want %s' %
                            (msg, shape(got), shape(want), _short(got),
                             _short(want)))
        for i, (a, b) in enumerate(zip(g, w)):
            if isinstance(a, complex) or isinstance(b, complex):
                ok = abs(a - b) <= atol + rtol * abs(b)
            elif b != b:
                ok = a != a
            elif a != a:
                ok = False
            elif math.isinf(b) or math.isinf(a):
                ok = a == b
            else:
                ok = abs(a - b) <= atol + rtol * abs(b)
            if not ok:
                raise Violation('%s: element %d is %r, expected %r | got %s '
                                'want %s' % (msg, i, a, b, _short(got),
                                             _short(want)))

    def raises(self, func, exc, msg):
        """func() must raise one of `exc`."""
        self.calls += 1
        self.compared += 1
        try:
            func()
        except exc as e:
            self.see(type(e).__name__)
            return e
        raise Violation(msg + ': accepted without an error')

    def finding(self, key, msg):
        self.known.append((key, msg))


def shape(x):
    if hasattr(x, 'shape'):
        return tuple(x.shape)
    if isinstance(x, (list, tuple)):
        if len(x) and (isinstance(x[0], (list, tuple)) or
                       hasattr(x[0], 'shape') and x[0].shape != ()):
            return (len(x),) + shape(x[0])
        return (len(x),)
    return ()


def flat(x):
    if hasattr(x, 'tolist'):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out.extend(flat(y))
        return out
    return [x]


def canon(v):
    if hasattr(v, 'tolist'):
        v = v.tolist()
    if isinstance(v, float):
        return '%.7g' % v
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(canon(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ','.join('%s:%s' % (k, canon(v[k])) for k in v) + '}'
    return str(v)


def _short(x):
    if hasattr(x, 'tolist'):
        x = x.tolist()
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'


class Family(object):
    def __init__(self, name, gen, run, bound, min_outcomes=2):
        self.name, self.gen, self.run = name, gen, run
        self.bound = bound
        self.min_outcomes = min_outcomes


# --------------------------------------------------------------------------
_FAMS = None
_SCNS = None
_STATE = None


def _alarm(signum, frame):
    raise ScenarioTimeout()


def run_one(fam, scn):
    ctx = Ctx()
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(SCENARIO_TIMEOUT)
    try:
        fam.run(scn, ctx)
    except Violation as e:
        err = str(e)
    except ScenarioTimeout:
        err = 'no answer within %d s' % SCENARIO_TIMEOUT
    except (KeyboardInterrupt, SystemExit):
        raise
    except MemoryError:
        raise
    except BaseException as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name)
                            for f in reversed(tb[-4:]))
        err = 'unexpected %s: %s at %s' % (type(e).__name__,
                                           str(e)[:300], where)
    finally:
        signal.alarm(0)
    return err, ctx


def _worker_init():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _work(job):
    fi, lo, hi = job
    fam, scns = _FAMS[fi], _SCNS[fi]
    out = dict(fi=fi, n=0, calls=0, compared=0, bad=[], known={},
               outcomes=set(), t=time.time())
    for i in range(lo, hi):
        if _STATE.value >= MAX_REPORTED:
            out['stopped'] = True
            break
        err, ctx = run_one(fam, scns[i])
        out['n'] += 1
        out['calls'] += ctx.calls
        out['compared'] += ctx.compared
        out['outcomes'].add(ctx.digest())
        for key, msg in ctx.known:
            out['known'].setdefault(key, [0, msg, i])
            out['known'][key][0] += 1
        if err is not None:
            out['bad'].append((i, err))
            with _STATE.get_lock():
                _STATE.value += 1
    out['t'] = time.time() - out['t']
    return out


def known_keys(prop):
    keys = []
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                keys.append(line.split()[2])
    return keys


def run_check(prop, families, tier, seed, assumptions, deadline,
              exhaustive_note=''):
    global _FAMS, _SCNS, _STATE
    t0 = time.time()
    _FAMS = families
    _SCNS = [list(f.gen(tier)) for f in families]
    thin = int(os.environ.get('VERIF_THIN') or 1)   # development only
    if thin > 1:
        _SCNS = [x[::thin] for x in _SCNS]
    _STATE = mp.Value('i', 0)
    jobs = []
    nproc = int(os.environ.get('VERIF_PROCS') or
                max(1, min(8, os.cpu_count() or 1)))
    for fi, scns in enumerate(_SCNS):
        n = len(scns)
        if n == 0:
            print('ERROR family %s enumerates nothing' % families[fi].name)
            return 2
        size = max(1, min(200, int(math.ceil(n / float(nproc * 6)))))
        for lo in range(0, n, size):
            jobs.append((fi, lo, min(n, lo + size)))
    # interleave the families so that each worker warms up on all of them
    agg = [dict(n=0, calls=0, compared=0, outcomes=set(), cpu=0.0)
           for _ in families]
    bad, known, capped = [], {}, False
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    sys.stdout.flush()
    pool = mp.get_context('fork').Pool(nproc, _worker_init)
    try:
        it = pool.imap_unordered(_work, jobs)
        for _ in range(len(jobs)):
            left = deadline - (time.time() - t0)
            if left <= 0:
                capped = True
                break
            try:
                out = it.next(timeout=left)
            except mp.TimeoutError:
                capped = True
                break
            a = agg[out['fi']]
            a['n'] += out['n']
            a['calls'] += out['calls']
            a['compared'] += out['compared']
            a['outcomes'] |= out['outcomes']
            a['cpu'] += out['t']
            for i, err in out['bad']:
                bad.append((out['fi'], i, err))
            for key, (cnt, msg, i) in out['known'].items():
                e = known.setdefault(key, [0, msg, out['fi'], i])
                e[0] += cnt
    finally:
        pool.terminate()
        pool.join()

    # findings that are not listed are violations
    listed = known_keys(prop)
    for key, (cnt, msg, fi, i) in sorted(known.items()):
        if key in listed:
            print('KNOWN-FINDING: property=%s %s: %s (%d scenarios)' %
                  (prop, key, msg, cnt))
        else:
            bad.append((fi, i, 'unlisted finding %s: %s' % (key, msg)))

    code = 0
    if bad:
        code = 1
        bad.sort()
        for k, (fi, i, err) in enumerate(bad[:MAX_REPORTED]):
            path = os.path.join(EVID, 'replay', '%s-%d.json' % (prop, k))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, family=families[fi].name,
                               scenario=_SCNS[fi][i], error=err), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   family=%s scenario=%s\n   %s' %
                  (families[fi].name, json.dumps(_SCNS[fi][i])[:300], err))
    else:
        for fam, a, scns in zip(families, agg, _SCNS):
            if not capped and a['n'] != len(scns):
                print('ERROR %s: ran %d of %d scenarios' %
                      (fam.name, a['n'], len(scns)))
                code = 2
            if not capped and len(a['outcomes']) < min(fam.min_outcomes,
                                                       len(scns)):
                print('ERROR %s: vacuous, %d distinct outcomes' %
                      (fam.name, len(a['outcomes'])))
                code = 2
    states = sum(len(set(json.dumps(s, sort_keys=True) for s in scns))
                 for scns in _SCNS)
    samples = []
    for fam, scns in zip(families, _SCNS):
        for j in sorted(set((0, len(scns) // 2, len(scns) - 1))):
            samples.append(dict(family=fam.name, scenario=scns[j]))
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=states if not capped else sum(a['n'] for a in agg),
            transitions=sum(a['calls'] for a in agg),
            traces_validated_against_impl=sum(a['n'] for a in agg),
            comparisons=sum(a['compared'] for a in agg),
            distinct_outcomes=sum(len(a['outcomes']) for a in agg),
            exhaustive=bool(not capped and not bad),
            rule='state = one enumerated scenario of a family (initial data, '
                 'configuration and operation history); transition = one call '
                 'of the implementation whose result was compared with the '
                 'reference model; trace = one scenario run to its end on the '
                 'implementation',
            families=[dict(name=f.name, bound=f.bound, scenarios=len(s),
                           run=a['n'], calls=a['calls'],
                           comparisons=a['compared'],
                           distinct_outcomes=len(a['outcomes']),
                           cpu_s=round(a['cpu'], 1))
                      for f, s, a in zip(families, _SCNS, agg)],
            known_findings=dict((k, v[0]) for k, v in known.items()),
            cap='time cap %d s hit; only the scenarios counted above were '
                'covered' % deadline if capped else 'none',
            samples=samples),
        assumptions=assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=len(bad))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if code == 0:
        print('OK property=%s tier=%s states=%d calls=%d comparisons=%d '
              'outcomes=%d wall=%.1fs%s' %
              (prop, tier, ev['coverage']['states'],
               ev['coverage']['transitions'], ev['coverage']['comparisons'],
               ev['coverage']['distinct_outcomes'], ev['wall_s'],
               ' CAPPED' if capped else ''))
        for f in ev['coverage']['families']:
            print('   %-28s scenarios=%d calls=%d outcomes=%d cpu=%.1fs' %
                  (f['name'], f['scenarios'], f['calls'],
                   f['distinct_outcomes'], f['cpu_s']))
    return code
