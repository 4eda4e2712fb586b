"""C22: ABC intervals follow Efron's definition."""
import math
from itertools import product

import numpy as np
import pandas as pd

import boot
import gen
import ref
from core import Family
from gen import Prob
from checks.c06 import medium


# ----------------------------------------------------------- the definition
def abc_interval(T, theta, n, conf, eps, user, floors):
    """Efron's ABC for the estimator T(per-observation weights); `user` are
    the user's per-observation weights, `floors` the sizes below which a
    difference of estimates counts as rounding (first/second differences,
    quadratic coefficient)."""
    f2, fq = floors
    K = len(theta)

    def fit(w):
        return T([a * b for a, b in zip(w, user)])

    inf = [[0.0] * K for _ in range(n)]
    sec = [[0.0] * K for _ in range(n)]
    for i in range(n):
        plus = fit([(1 - eps) / n + (eps if j == i else 0)
                    for j in range(n)])
        minus = fit([(1 + eps) / n - (eps if j == i else 0)
                     for j in range(n)])
        for k in range(K):
            d1 = plus[k] - minus[k]
            d2 = plus[k] - 2 * theta[k] + minus[k]
            inf[i][k] = d1 / (2 * eps) if abs(d1) > f2 else 0.0
            sec[i][k] = d2 / eps ** 2 if abs(d2) > f2 else 0.0
    lo, hi, se_all = [], [], []
    for k in range(K):
        s2 = sum(inf[i][k] ** 2 for i in range(n))
        s3 = sum(inf[i][k] ** 3 for i in range(n))
        se = math.sqrt(s2) / n
        se_all.append(se)
        if s2 == 0:
            lo.append(None)
            hi.append(None)
            continue
        acc = s3 / (6 * s2 ** 1.5)
        bias = sum(sec[i][k] for i in range(n)) / (2.0 * n * n)
        dirn = [inf[i][k] / (n * n * se) for i in range(n)]
        t1 = fit([1.0 / n + eps * d for d in dirn])[k]
        t3 = fit([1.0 / n - eps * d for d in dirn])[k]
        q = t1 - 2 * theta[k] + t3
        cq = q / (2 * se * eps ** 2) if abs(q) > fq else 0.0
        curv = bias / se - cq
        z0 = ref.norm_ppf(2 * ref.norm_cdf(acc) * ref.norm_cdf(-curv))
        for tail, out in (((100 - conf) / 200.0, lo),
                          (1 - (100 - conf) / 200.0, hi)):
            z = z0 + ref.norm_ppf(tail)
            lam = z / (1 - acc * z) ** 2
            out.append(fit([1.0 / n + lam * d for d in dirn])[k])
    return lo, hi, se_all


FLOORS = [(0.0, 0.0), (1e-12, 1e-10)]


def compare(ctx, got, wants, msg, tol):
    lo0, hi0, se = wants[0]
    K = len(lo0)
    ctx.eq(tuple(got.shape), (2, K), 'shape of the interval')
    for k in range(K):
        for row in (0, 1):
            c = [w[row][k] for w in wants]
            g = float(got[row, k])
            slack = tol * (se[k] + 1e-9 * abs(c[0]))
            ctx.check(min(c) - slack <= g <= max(c) + slack,
                      '%s: %s endpoint of parameter %d is %r, expected %r '
                      '(standard error %r)' % (
                          msg, ['lower', 'upper'][row], k, g, c, se[k]))


# -------------------------------------------------- enumerated estimators
def estimator(kind, xs):
    """T(w) for per-observation weights w."""
    n = len(xs)
    ys = [xs[(i * 2 + 1) % n] + 0.3 * i for i in range(n)]

    def mean(w):
        return sum(a * b for a, b in zip(w, xs)) / sum(w)

    def linear(w):
        return sum(a * b for a, b in zip(w, ys))

    def ratio(w):
        return (sum(a * b for a, b in zip(w, xs)) /
                (3.0 + sum(a * b for a, b in zip(w, ys))))

    def var(w):
        m = mean(w)
        return sum(a * (b - m) ** 2 for a, b in zip(w, xs)) / sum(w)

    def logm(w):
        return math.log(8.0 + mean(w)) * 5

    def quad(w):
        return sum(a * b for a, b in zip(w, xs)) ** 2 + linear(w)

    return {'mean': mean, 'linear': linear, 'ratio': ratio, 'var': var,
            'log': logm, 'quad': quad}[kind]


def run_fake(scn, ctx):
    """A real model object whose `fit_mle` is replaced by an enumerated
    estimator that records the weights it is handed."""
    from pylogit import bootstrap, bootstrap_abc as abc
    p = Prob(scn)
    model = p.model()
    n, K = p.n, p.nparams()
    xs = scn['xs']
    Ts = [estimator(scn['est'][k % len(scn['est'])], xs) for k in range(K)]

    def T(w):
        return [t(w) for t in Ts]

    user = scn.get('user') or [1.0] * n
    rows = [i for i, a in p.rows]
    first = [rows.index(i) for i in range(n)]
    # the library orders observations by first appearance
    init = np.array([0.25 * (k + 1) for k in range(K)])
    log = []

    def fake(init_vals, **kw):
        w = kw.pop('weights')
        log.append((np.array(init_vals).tolist(), np.array(w), kw))
        return {'x': np.array(T([float(w[j]) for j in first]))}

    model.fit_mle = fake
    theta = T([u / float(n) for u in user])
    ctx.check(not any(isinstance(x, complex) for x in theta), 'harness')
    kw = dict(scn.get('kw') or {})
    given = dict(kw)
    if scn.get('user'):
        kw['weights'] = p.row_weights(user).astype(scn.get('utype',
                                                           'float64'))
    eps = scn.get('eps')
    if eps is not None:
        kw['epsilon'] = eps
    eps = 0.001 if eps is None else eps
    wants = {}
    prev = None
    b = bootstrap.Boot(model, np.array(theta))
    for conf in scn['levels']:
        wants = [abc_interval(T, theta, n, conf, eps, user, f)
                 for f in FLOORS]
        if any(x is None for w in wants for e in w[:2] for x in e):
            return
        for via in scn.get('via', ['func']):
            del log[:]
            kk = dict(kw)
            with boot.quiet():
                if via == 'func':
                    got = ctx.call(abc.calc_abc_interval, model,
                                   np.array(theta), init, conf, **kk)
                elif via == 'boot':
                    ctx.call(b.calc_abc_interval, conf, init, **kk)
                    got = b.abc_interval
                elif via == 'all':
                    b.bootstrap_replicates = pd.DataFrame(
                        [[t + 0.1 * ((r * (k % 4 + 4)) % 9 - 4) for k, t in
                          enumerate(theta)] for r in range(9)])
                    b.jackknife_replicates = b.bootstrap_replicates
                    ctx.call(b.calc_conf_intervals, conf,
                             init_vals=init, **kk)
                    got = b.abc_interval
                    ctx.close(b.all_intervals.values[:, 4:6], got.values,
                              'ABC part of all_intervals', rtol=0, atol=0)
                else:
                    ctx.call(b.calc_conf_intervals, conf,
                             interval_type='abc', init_vals=init, **kk)
                    got = b.abc_interval
            if via != 'func':
                labels(ctx, got, p, conf)
                got = got.values.T
            compare(ctx, got, wants, '%s at %s%% with estimators %s' %
                    (via, conf, scn['est']), 1e-6)
            ctx.check(len(log) >= 2 * n + 2, 'too few refits')
            for iv, w, kws in log:
                ctx.close(iv, init.tolist(), 'starting values of a refit')
                ctx.eq(tuple(w.shape), (len(rows),), 'shape of the weights')
                for r, i in enumerate(rows):
                    ctx.check(abs(w[r] - w[first[i]]) <= 1e-12,
                              'weights differ within an observation', w)
                ctx.eq(dict((k, v) for k, v in kws.items()
                            if k != 'just_point'), given,
                       'options of a refit')
        ctx.see([round(float(x), 6) for x in got.ravel()])


def labels(ctx, got, p, conf):
    a = 100 - conf
    ctx.check(isinstance(got, pd.DataFrame), 'abc_interval is a dataframe')
    ctx.eq(got.index.tolist(), p.param_names(), 'rows of abc_interval')
    ctx.eq(got.columns.tolist(), ['%.3g%%' % (a / 2.0),
                                  '%.3g%%' % (100 - a / 2.0)],
           'columns of abc_interval')


PATS = {
    3: [[[0, 1], 0], [[1, 0], 1], [[0, 1], 1]],
    4: [[[0, 1], 0], [[1, 0], 1], [[0, 1], 1], [[1, 0], 0]],
    5: [[[0, 1, 2], 0], [[1, 0], 1], [[2, 0, 1], 1], [[2, 0], 2],
        [[1], 1]],
    6: [[[0, 1], 0], [[1, 0], 1], [[0, 1], 1], [[1], 1], [[0, 1], 0],
        [[0], 0]],
}
KINDS = ['mean', 'linear', 'ratio', 'var', 'log', 'quad']


def gen_fake(tier):
    full = tier == 'thorough'
    vals = [0.0, 1.0, 3.0]
    k = 0
    for n in ((3, 4, 5) if full else (3, 4)):
        for xs in product(vals, repeat=n):
            if len(set(xs)) < 2:
                continue
            for kind in range(6):
                k += 1
                e = [KINDS[kind], KINDS[(kind + 1 + k % 5) % 6]]
                yield dict(pat=PATS[n], model={'type': 'MNL'}, spec='xy',
                           xs=list(xs), est=e,
                           levels=[90, 50, 99][k % 3:k % 3 + 1] +
                           ([20] if full else []))
    # options: user weights x step x way of calling x configuration
    cfgs = [{'type': 'MNL'}, {'type': 'Cloglog', 'iref': 1},
            {'type': 'Asym', 'sref': 0, 'iref': 2},
            {'type': 'Scobit', 'iref': None},
            {'type': 'Uneven', 'iref': 0},
            {'type': 'Nested Logit', 'nests': [[2], [0, 1]]}]
    for cfg in cfgs:
        for user in (None, [1.0, 2.0, 0.5, 3.0, 1.25],
                     [2.0, 2.0, 2.0, 2.0, 2.0]):
            for eps in (None, 0.01, 0.1):
                for via in (['func', 'boot'], ['conf', 'all']):
                    for kw in ({}, dict(ridge=0.1, method='CG',
                                        print_res=False)):
                        for ids in (None, [3, 10, 11, 40, 41]):
                            yield dict(
                                pat=PATS[5], model=cfg, spec='xy',
                                xs=[0.5, 2.0, -1.0, 3.5, 1.0],
                                est=['ratio', 'var', 'log', 'quad', 'mean'],
                                user=user, eps=eps, via=via, kw=kw, ids=ids,
                                levels=[95, 80])
    for cfg in cfgs:
        for user, t in (([1.0, 0.0, 2.0, 0.0, 1.5], 'float64'),
                        ([0.0, 3.0, 2.0, 1.0, 1.0], 'int64'),
                        ([1.0, 2.0, 1.0, 4.0, 1.0], 'uint8'),
                        ([2.0, 0.5, 1.0, 1.0, 0.25], 'float32'),
                        ([2e-3, 5e-3, 1e-3, 2e-3, 4e-3], 'float64'),
                        ([500.0, 100.0, 900.0, 10.0, 250.0], 'float64')):
            for via in (['func'], ['boot'], ['conf', 'all']):
                yield dict(pat=PATS[5], model=cfg, spec='xy',
                           xs=[0.5, 2.0, -1.0, 3.5, 1.0],
                           est=['ratio', 'var', 'log', 'quad', 'mean'],
                           user=user, utype=t, via=via, levels=[95, 60])
    for n in (6,):
        for lv in (1, 10, 50, 68, 90, 95, 99, 99.9):
            for est in KINDS:
                for user in (None, [1.0, 2.0, 0.5, 3.0, 1.25, 0.75]):
                    yield dict(pat=PATS[n], model={'type': 'MNL'}, spec='xy',
                               xs=[0.5, 2.0, -1.0, 3.5, 1.0, 0.0],
                               est=[est, 'log'], levels=[lv], user=user,
                               via=['func', 'conf'])


# ------------------------------------------------------------- real models
def run_real(scn, ctx):
    from pylogit import bootstrap, bootstrap_abc as abc
    p = Prob(scn)
    n, K = p.n, p.nparams()
    opts = dict(print_res=False, maxiter=2000, gradient_tol=1e-9,
                loss_tol=1e-12)
    fixed = scn.get('fixed') or []
    if fixed:
        opts['constrained_pos'] = list(fixed)
    user = scn.get('user')
    init = np.array(scn.get('init') or [0.0] * K)
    wkw = {} if user is None else dict(weights=p.row_weights(user))
    model = ctx.call(p.model)
    theta = ctx.call(p.model().fit_mle, init.copy(), just_point=True,
                     **dict(opts, **wkw))['x']
    other = p.model()
    memo = {}

    def T(w):
        key = tuple(w)
        if key not in memo:
            memo[key] = other.fit_mle(
                init.copy(), just_point=True, weights=p.row_weights(w),
                **opts)['x'].tolist()
        return memo[key]

    u = user or [1.0] * n
    conf, eps = scn['conf'], scn.get('eps') or 0.001
    ekw = dict(epsilon=scn['eps']) if scn.get('eps') else {}
    wants = [abc_interval(T, theta.tolist(), n, conf, eps, u, f)
             for f in FLOORS]
    wants = [tuple([float(init[k]) if k in fixed else v
                    for k, v in enumerate(w[r])] for r in (0, 1)) + (w[2],)
             for w in wants]
    b = bootstrap.Boot(model, theta)
    kk = dict(dict(opts, **wkw), **ekw)
    with boot.quiet():
        if scn['via'] == 'func':
            got = ctx.call(abc.calc_abc_interval, model, theta, init.copy(),
                           conf, **kk)
        elif scn['via'] == 'boot':
            ctx.call(b.calc_abc_interval, conf, init.copy(), **kk)
        elif scn['via'] == 'abc':
            ctx.call(b.calc_conf_intervals, conf, interval_type='abc',
                     init_vals=init.copy(), **kk)
        else:
            reps = [[float(t) + 0.1 * math.sin((k + 1) * (r + 1))
                     for k, t in enumerate(theta)] for r in range(41)]
            jack = [[float(t) + 0.1 * math.cos((k + 1) * (r + 1))
                     for k, t in enumerate(theta)] for r in range(n)]
            b.bootstrap_replicates = pd.DataFrame(reps,
                                                  columns=p.param_names())
            b.jackknife_replicates = pd.DataFrame(jack,
                                                  columns=p.param_names())
            ctx.call(b.calc_conf_intervals, conf, init_vals=init.copy(),
                     **kk)
    if scn['via'] != 'func':
        labels(ctx, b.abc_interval, p, conf)
        got = b.abc_interval.values.T
    compare(ctx, got, wants, '%s interval of %s' % (scn['via'], p.type),
            1e-2 if scn.get('eps') else 0.1)
    for k in range(K):
        if k not in fixed:
            ctx.check(got[0, k] < float(theta[k]) < got[1, k],
                      'the interval does not surround the estimate', got,
                      theta)
    if scn['via'] == 'all':
        from checks import c21
        allint = b.all_intervals
        ctx.eq(allint.index.tolist(), p.param_names(), 'rows of all_intervals')
        ends = ['%.3g%%' % ((100 - conf) / 2.0),
                '%.3g%%' % (100 - (100 - conf) / 2.0)]
        ctx.eq([tuple(c) for c in allint.columns],
               [(t, e) for t in ('percentile_interval', 'BCa_interval',
                                 'ABC_interval') for e in ends],
               'columns of all_intervals')
        v = allint.values
        ctx.close(v[:, 4:6], b.abc_interval.values, 'ABC part')
        ctx.close(v[:, 0:2], b.percentile_interval.values, 'percentile part')
        ctx.close(v[:, 2:4], b.bca_interval.values, 'BCa part')
        c21.member(ctx, v[:, 0:2].T, c21.pct_want(reps, conf), 'percentile')
        c21.member(ctx, v[:, 2:4].T,
                   c21.bca_want(reps, jack, theta.tolist(), conf), 'BCa')
    ctx.see([round(float(x), 4) for x in got.ravel()])


def gen_real(tier):
    full = tier == 'thorough'
    pat = medium('obs30')
    uw = [[1.0, 2.0, 1.5, 0.5, 1.25][i % 5] for i in range(30)]
    cfgs = [({'type': 'MNL'}, [[], [1]], [None]),
            ({'type': 'MNL'}, [[]], [[0.3, -0.4]]),
            ({'type': 'Cloglog', 'iref': None}, [[], [0]], [None])]
    vias = ['func', 'boot', 'abc', 'all']
    for cfg, fix, inits in cfgs:
        for f in fix:
            for init in inits:
                for user in (None, uw):
                    for k, via in enumerate(vias):
                        if f and via == 'all':
                            continue
                        for conf in ((95, 80, 50) if full else
                                     ((90, 80)[k % 2],)):
                            yield dict(pat=pat, model=cfg, spec='xy',
                                       fixed=f, init=init, user=user,
                                       via=via, conf=conf,
                                       eps=None if k == 2 else 0.02)
    # the outside parameters held fixed
    for cfg, nf in (({'type': 'Scobit', 'iref': None}, 3),
                    ({'type': 'Uneven', 'iref': None}, 3),
                    ({'type': 'Cloglog', 'iref': 0}, 2),
                    ({'type': 'Asym', 'sref': 1, 'iref': None}, 2),
                    ({'type': 'Nested Logit', 'nests': [[2, 0], [1]]}, 2)):
        for user in (None, uw):
            yield dict(pat=pat, model=cfg, spec='xy', fixed=list(range(nf)),
                       init=[0.1 * (k + 1) for k in range(nf)] + [0.0, 0.0],
                       user=user, via='boot' if user else 'func',
                       conf=50 if cfg['type'] == 'Asym' else 80, eps=0.02)


FAMILIES = [
    Family('enumerated-estimators', gen_fake, run_fake,
           'a real model object whose refit is one of 6 estimators: every '
           'dataset of 3-4 (thorough 5) values over {0,1,3} x 6 pairs of '
           'estimators; 6 configurations x weights (zeros, integer types, '
           'tiny and large) x steps x entry points x '
           'options x ids; 8 levels', 50),
    Family('real-models', gen_real, run_real,
           '30 observations: multinomial and clog-log logit (free and with a '
           'fixed parameter) and the other types with their outside '
           'parameters fixed, with and without weights, every entry point',
           5),
]
ASSUMPTIONS = [
    'the perturbed weights are non-negative (otherwise the library refuses '
    'them) and the model is estimated without ridge penalty (weights sum to '
    'one, so a fixed penalty would swamp the likelihood)',
    'differences of estimates below 1e-12 (1e-10 for the quadratic '
    'coefficient) may be treated as zero',
]
