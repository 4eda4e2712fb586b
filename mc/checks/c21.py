"""C21: percentile and BCa intervals follow their definitions."""
import math
from fractions import Fraction
from itertools import product, combinations_with_replacement

import numpy as np
import pandas as pd

import boot
import gen
import ref
from core import Family
from gen import Prob

LEVELS = [0.5, 1, 20, 33.333, 50, 68.3, 80, 90, 95, 97.5, 98.76, 99, 99.9]


def frac(x):
    return Fraction(str(x))


def at_or_below(col, pct, tol=1e-9):
    """Candidates for the replicate at or next below a percentile (of which
    there are two only when rounding could decide)."""
    s = sorted(col)
    h = float(len(s) - 1) * float(pct) / 100.0
    lo = int(math.floor(h))
    out = [s[max(0, min(lo, len(s) - 1))]]
    near = int(round(h))
    if abs(h - near) < tol:
        out = [s[max(0, min(near, len(s) - 1))]]
        out.append(s[max(0, near - 1)])
    return out


def at_or_above(col, pct, tol=1e-9):
    s = sorted(col)
    h = float(len(s) - 1) * float(pct) / 100.0
    hi = int(math.ceil(h))
    out = [s[max(0, min(hi, len(s) - 1))]]
    near = int(round(h))
    if abs(h - near) < tol:
        out = [s[max(0, min(near, len(s) - 1))]]
        out.append(s[min(len(s) - 1, near + 1)])
    return out


def tails(conf):
    a = (100 - frac(conf)) / 2
    return float(a), float(100 - a)


def pct_want(reps, conf):
    lo, hi = tails(conf)
    cols = list(zip(*reps))
    return ([at_or_below(c, lo) for c in cols],
            [at_or_above(c, hi) for c in cols])


_PPF = {}


def ppf(q):
    if q not in _PPF:
        _PPF[q] = ref.norm_ppf(q)
    return _PPF[q]


def bca_pcts(col, jack, theta, conf):
    share = sum(1 for x in col if x < theta) / float(len(col))
    z0 = ppf(share)
    m = sum(jack) / float(len(jack))
    d = [m - x for x in jack]
    s2, s3 = sum(x * x for x in d), sum(x ** 3 for x in d)
    acc = s3 / (6 * s2 ** 1.5) if s2 > 0 else 0.0
    lo, hi = tails(conf)
    out = []
    for t in (lo, hi):
        z = z0 + ppf(t / 100.0)
        out.append(100 * ref.norm_cdf(z0 + z / (1 - acc * z)))
    return out, z0, acc


def bca_want(reps, jack, theta, conf):
    lo, hi = [], []
    for c, j, t in zip(zip(*reps), zip(*jack), theta):
        (a, b), _, _ = bca_pcts(c, j, t, conf)
        lo.append(at_or_below(c, a, 1e-6))
        hi.append(at_or_above(c, b, 1e-6))
    return lo, hi


def member(ctx, got, want, msg):
    lo, hi = want
    ctx.eq(tuple(got.shape), (2, len(lo)), 'shape of the interval')
    for k in range(len(lo)):
        for row, w in ((0, lo[k]), (1, hi[k])):
            ctx.check(any(abs(float(got[row, k]) - x) <= 1e-12 * abs(x)
                          for x in w), '%s: %s endpoint of parameter %d is '
                      '%r, expected one of %s' % (
                          msg, ['lower', 'upper'][row], k,
                          float(got[row, k]), w))


def nested(ctx, prev, got, msg):
    if prev is not None:
        ctx.check(bool((got[0] <= prev[0]).all() and
                       (got[1] >= prev[1]).all()),
                  'intervals do not nest as the level grows: ' + msg,
                  prev, got)


def scaled(scn, rows):
    """In other units, and far from zero (both exact)."""
    k, off = scn.get('scale', [0, 0.0])
    return [[x * 2.0 ** k + off for x in r] for r in rows]


def run_pct(scn, ctx):
    from pylogit import bootstrap_calcs as bc
    reps = scaled(scn, scn['reps'])
    arr = np.array(reps, dtype=float)
    prev = None
    for conf in scn.get('levels', LEVELS):
        got = ctx.call(bc.calc_percentile_interval, arr, conf)
        member(ctx, got, pct_want(reps, conf), 'percentile %s%%' % conf)
        ctx.check(bool((got[0] <= got[1]).all()), 'lower above upper', got)
        nested(ctx, prev, got, 'percentile %s' % conf)
        prev = got
        ctx.see(got)


SCALES = [[-40, 0.0], [30, 0.0], [-10, 1024.0], [-4, -65536.0]]


def gen_pct(tier):
    for k, d in enumerate(gen_pct_unit(tier)):
        yield d
        for j, s in enumerate(SCALES):
            if tier == 'thorough' or (k + j) % 4 == 0:
                yield dict(d, scale=s)


def gen_pct_unit(tier):
    full = tier == 'thorough'
    vals = [0.0, 1.0, 2.5]
    for N in (1, 2, 3, 4):
        for col in product(vals, repeat=N):
            other = [3.0 - 2 * x for x in col[::-1]]
            third = [x + 0.25 * k for k, x in enumerate(col)]
            yield dict(reps=[list(r) for r in zip(col, other, third)])
            if N <= 2:
                yield dict(reps=[[x] for x in col])
    for N in ((5, 6, 7) if full else (5,)):
        for col in product([0.0, 1.0], repeat=N):
            third = [((k * 5) % 7) - x for k, x in enumerate(col)]
            yield dict(reps=[list(r) for r in zip(col, third)])
    for N in (10, 20, 21, 40, 41, 100, 101, 201, 1000, 1001):
        for mul in (7, 11, 13):
            a = [((k * mul) % N) / 3.0 for k in range(N)]
            b = [-((k * (mul + 6)) % N) ** 2 * 0.01 for k in range(N)]
            yield dict(reps=[list(r) for r in zip(a, b)],
                       levels=LEVELS + [99.99])


def run_bca(scn, ctx):
    from pylogit import bootstrap_calcs as bc
    reps, jack = scaled(scn, scn['reps']), scaled(scn, scn['jack'])
    A, Jk = np.array(reps, dtype=float), np.array(jack, dtype=float)
    for theta in scaled(scn, scn['thetas']):
        cols = list(zip(*reps))
        if any(not 0 < sum(1 for x in c if x < t) < len(c)
               for c, t in zip(cols, theta)):
            continue
        prev = None
        th = np.array(theta, dtype=float)
        mono = all(all(1 - acc * (z0 + ppf(t / 100.0)) > 0.05
                       for t in tails(max(scn.get('levels', LEVELS))))
                   for (_, z0, acc) in
                   [bca_pcts(c, j, t, 50) for c, j, t in
                    zip(cols, zip(*jack), theta)])
        for conf in scn.get('levels', LEVELS):
            got = ctx.call(bc.calc_bca_interval, A, Jk, th, conf)
            member(ctx, got, bca_want(reps, jack, theta, conf),
                   'BCa %s%% estimate %s' % (conf, theta))
            if mono:
                nested(ctx, prev, got, 'BCa %s' % conf)
            prev = got
            ctx.see(got)


def thetas_for(cols):
    out = []
    per = []
    for c in cols:
        s = sorted(set(c))
        cand = [x for x in s[1:]]
        cand += [x + 0.01 for x in s[:-1]]
        per.append(sorted(set(cand)) or [s[0]])
    n = max(len(x) for x in per)
    for k in range(n):
        out.append([x[k % len(x)] for x in per])
    return out


def gen_bca(tier):
    for k, d in enumerate(gen_bca_unit(tier)):
        yield d
        for j, s in enumerate(SCALES[:2]):
            if tier == 'thorough' or (k + j) % 6 == 0:
                yield dict(d, scale=s)


def gen_bca_unit(tier):
    full = tier == 'thorough'
    jacks = [list(j) for n in (2, 3, 4)
             for j in combinations_with_replacement([0.0, 1.0, 4.0], n)]
    jacks += [[1e-9, 0.0, 2e-9], [0.0, 0.0, 0.0, 10.0], [5.0, -5.0]]
    k = 0
    for N in (2, 3, 4):
        for col in combinations_with_replacement([0.0, 1.0, 2.5, 4.0], N):
            if len(set(col)) < 2:
                continue
            for jack in jacks:
                k += 1
                other = [3.0 - 2 * x for x in col]
                third = [col[(i * 3 + 1) % N] * 0.5 + i * 0.1
                         for i in range(N)]
                cols = [col, other, third]
                jk = [[x, -x, (i + 1) * x] for i, x in enumerate(jack)]
                if k % 4 == 3:        # one parameter never moves
                    jk = [r[:k % 3] + [0.75] + r[k % 3 + 1:] for r in jk]
                lv = LEVELS if full or k % 6 == 0 else LEVELS[3 + k % 2::3]
                yield dict(reps=[list(r) for r in zip(*cols)], jack=jk,
                           thetas=thetas_for(cols), levels=lv)
    for N in (20, 41, 100, 1000):
        for mul in (7, 11, 13):
            a = [((k * mul) % N) / 3.0 for k in range(N)]
            b = [-((k * (mul + 6)) % N) ** 2 * 0.01 for k in range(N)]
            c = [math.exp(((k * (mul + 10)) % N) / float(N)) for k in
                 range(N)]
            jack = [[math.sin(i * mul), (i * 5 % 7) ** 2 * 0.1,
                     math.exp(-(i % 5))] for i in range(15)]
            cols = [a, b, c]
            ths = [[sorted(x)[int(N * q)] + 1e-4 for x in cols]
                   for q in (0.1, 0.35, 0.5, 0.8)]
            ths.append([sorted(a)[int(N * 0.2)], sorted(b)[int(N * 0.7)],
                        sorted(c)[int(N * 0.45)]])
            yield dict(reps=[list(r) for r in zip(*cols)], jack=jack,
                       thetas=ths)
            for fix in range(3) if N >= 100 else ():
                yield dict(reps=[list(r) for r in zip(*cols)],
                           jack=[[0.75 if k == fix else
                                  [(i % 7 == 0) * 3.0 + 0.1 * math.sin(i),
                                   (i * 5 % 7) ** 2 * 0.1,
                                   -math.exp(i % 5)][k] for k in range(3)]
                                 for i in range(15)], thetas=ths)


def run_boot(scn, ctx):
    """Through the Boot object: labels and stored attributes, in every order
    of calls."""
    from pylogit import bootstrap
    p = Prob(scn)
    model = p.model()
    K = p.nparams()
    N = scn['N']
    mult = [m for m in range(2, 60) if math.gcd(m, N) == 1]
    reps = [[((k * mult[c] + 3 * c) % N) * 0.1 - 0.5 * c
             for c in range(K)] for k in range(N)]
    jack = [[math.cos(i * (c + 2)) for c in range(K)] for i in range(6)]
    theta = [sorted(r[c] for r in reps)[N // 2] + 0.01 * c
             for c in range(K)]
    b = ctx.call(bootstrap.Boot, model, np.array(theta))
    names = p.param_names()
    ctx.eq(b.mle_params.index.tolist(), names, 'labels')
    b.bootstrap_replicates = pd.DataFrame(reps, columns=names)
    b.jackknife_replicates = pd.DataFrame(jack, columns=names)
    rows = [i for i, a in p.rows]

    def fake(init_vals, weights=None, **kw):
        # an enumerated estimator, so that 'all' (which includes the ABC
        # interval) needs no optimisation
        tot = float(np.sum(weights))
        return {'x': np.array([sum(w * math.sin((i + 1) * (c + 1))
                                   for w, i in zip(weights, rows)) / tot
                               for c in range(K)])}

    model.fit_mle = fake
    last = {}
    for op, conf in scn['ops']:
        with boot.quiet():
            if op == 'pi':
                ctx.call(b.calc_percentile_interval, conf)
            elif op == 'bca':
                ctx.call(b.calc_bca_interval, conf)
            elif op == 'all-pi':
                ctx.call(b.calc_conf_intervals, conf, interval_type='pi')
            elif op == 'all-bca':
                ctx.call(b.calc_conf_intervals, conf, interval_type='bca')
            else:
                ctx.call(b.calc_conf_intervals, conf, interval_type='all',
                         init_vals=np.array(theta))
        if op == 'all':
            last['pi'] = last['bca'] = conf
            check_all(ctx, b, names, conf)
        else:
            last['bca' if 'bca' in op else 'pi'] = conf
        for kind, attr in (('pi', 'percentile_interval'),
                           ('bca', 'bca_interval')):
            got = getattr(b, attr)
            if kind not in last:
                ctx.check(got is None, attr + ' present before it was '
                          'calculated')
                continue
            cf = last[kind]
            lo, hi = tails(cf)
            ctx.eq(got.index.tolist(), names, 'rows of ' + attr)
            ctx.eq(got.columns.tolist(), ['%.3g%%' % lo, '%.3g%%' % hi],
                   'columns of ' + attr)
            want = pct_want(reps, cf) if kind == 'pi' else \
                bca_want(reps, jack, theta, cf)
            member(ctx, got.values.T, want, '%s at %s' % (attr, cf))
    ctx.see([list(o) for o in scn['ops']], p.type)


def check_all(ctx, b, names, conf):
    lo, hi = tails(conf)
    got = b.all_intervals
    ctx.eq(got.index.tolist(), names, 'rows of all_intervals')
    ctx.eq([tuple(c) for c in got.columns.tolist()],
           [(k, '%.3g%%' % v) for k in ('percentile_interval',
                                        'BCa_interval', 'ABC_interval')
            for v in (lo, hi)], 'columns of all_intervals')
    for k, attr in enumerate(('percentile_interval', 'bca_interval',
                              'abc_interval')):
        ctx.close(got.values[:, 2 * k:2 * k + 2], getattr(b, attr).values,
                  'all_intervals does not repeat ' + attr, rtol=0, atol=0)


def gen_boot(tier):
    from checks.c06 import medium, med_configs
    pat = medium('mix')
    ops = [(o, c) for o in ('pi', 'bca', 'all-pi', 'all-bca', 'all')
           for c in (90, 68)] + [('pi', 99), ('bca', 1)]
    for k, cfg in enumerate(med_configs(4)):
        if cfg['type'] == 'Mixed Logit':
            continue
        hist = [[a] for a in ops] + [[a, b] for a in ops for b in ops]
        if k and tier == 'quick':
            hist = hist[k::9]
        elif not k:
            hist += [[a, b, c] for a in ops for b in ops for c in ops
                     if 'all' in (a[0], b[0], c[0]) or tier != 'quick']
        for h in hist:
            yield dict(pat=pat, model=cfg, spec='xy', N=11 + 10 * (k % 2),
                       ops=[list(o) for o in h])


FAMILIES = [
    Family('percentile', gen_pct, run_pct,
           'every array of 1-4 replicates over 3 values (with ties) in 1-3 '
           'columns, every binary array of 5 (thorough 7), 30 arrays of '
           '10-1001 replicates; 13-14 levels each', 50),
    Family('bca', gen_bca, run_bca,
           'every multiset of 2-4 replicates over 4 values x 31 jackknife '
           'arrays x every separating estimate x levels; 30 larger arrays (jackknife replicates of one parameter '
           'constant in 18)',
           50),
    Family('boot-object', gen_boot, run_boot,
           '11 configurations x every sequence of at most two interval calls '
           '(5 entry points, 4 levels)', 20),
]
ASSUMPTIONS = [
    'at least one replicate lies below and one not below the estimate for '
    'BCa (otherwise the bias term is infinite and the library raises)',
    'where an endpoint\'s position is an integer up to rounding both '
    'neighbours are accepted',
]
