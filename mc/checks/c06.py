"""C06: choice probabilities follow each model's formula and are proper."""
import math
from itertools import product

import numpy as np

import gen
import ref
from core import Family
from gen import Prob, patterns, configs

MIXSETS = (['b_x'], ['b_y', 'b_x'])
MIXSMALL = (['b_y', 'b_x'],)

LABELS3 = [[-7, 0, 4], [10, 11, 300], [0, 1, 2], [3, 20, 100]]


def medium(kind):
    """A few larger datasets (every observation different)."""
    if kind == 'alts6':
        J, n = 6, 7
    elif kind == 'alts12':
        J, n = 12, 5
    elif kind == 'obs30':
        J, n = 3, 30
    elif kind == 'obs300':        # more than 256 observations and rows
        J, n = 3, 300
    elif kind == 'alts140':       # more than 128 alternatives, 256 rows
        J, n = 140, 3
    elif kind == 'alts12b':
        J, n = 12, 60
    else:
        J, n = 4, 12
    pat = []
    for i in range(n):
        s = [a for a in range(J) if i == 0 or (i * 5 + a * 3 + i * a) % 4]
        if not s:
            s = [i % J]
        if i % 2:
            s = s[::-1]
        if i % 3 == 2:
            s = s[1:] + s[:1]
        pat.append([s, s[(i * 7) % len(s)]])
    return pat


def med_configs(J):
    out = [{'type': 'MNL'},
           {'type': 'Asym', 'sref': 1, 'iref': J - 2},
           {'type': 'Asym', 'sref': J - 1, 'iref': None},
           {'type': 'Cloglog', 'iref': 1}, {'type': 'Cloglog', 'iref': None},
           {'type': 'Scobit', 'iref': 0}, {'type': 'Scobit', 'iref': None},
           {'type': 'Uneven', 'iref': J - 1}, {'type': 'Uneven',
                                               'iref': None},
           {'type': 'Nested Logit',
            'nests': [list(range(1, J, 2)), list(range(0, J, 2))]},
           {'type': 'Nested Logit',
            'nests': [[J - 1], list(range(0, J - 1))]},
           {'type': 'Mixed Logit', 'mixing': ['b_y', 'b_x'], 'draws': 3}]
    return out


def mixids(n, kind):
    if kind == 'own':
        return list(range(1, n + 1))
    if kind == 'panel':
        return [9 - 4 * (i // 2) for i in range(n)]
    if kind == 'alternate':
        return [5 if i % 2 else 2 for i in range(n)]
    return [3] * n


def seed_draws(p, seed):
    from pylogit import mixed_logit_calcs as mlc
    d = mlc.get_normal_draws(len(p.mix_order), p.cfg['draws'],
                             len(p.cfg['mixing']), seed=seed)
    return [x.tolist() for x in d]


def predict(p, params, ctx, model=None, df=None):
    model = model or p.model()
    df = p.df() if df is None else df
    kw = {}
    draws = None
    if p.type == 'Mixed Logit':
        kw = dict(num_draws=p.cfg['draws'], seed=17)
        draws = seed_draws(p, 17)
    got = ctx.call(model.predict, df, param_list=p.param_list(params), **kw)
    return got, ref.real(ref.probs(p, params, draws))


def proper(ctx, p, got, tol=1e-7):
    tot = {}
    for r, (i, a) in enumerate(p.rows):
        x = float(got[r])
        ctx.check(x == x and 0 < x <= 1 + 1e-9,
                  'probability outside (0, 1]', x, p.cfg)
        tot[i] = tot.get(i, 0.0) + x
    for i, t in tot.items():
        ctx.check(abs(t - 1) < tol, 'probabilities of a choice situation do '
                  'not sum to one', t, p.cfg)


def in_range(p, params):
    """No utility is clipped by the library (documented bound 700)."""
    if p.type in ('Nested Logit', 'Mixed Logit'):
        return True
    return all(abs(h) < 650 for h in ref.utilities(p, params))


def run_formula(scn, ctx):
    p = Prob(scn)
    model = ctx.call(p.model)
    for which in scn['par']:
        params = p.params(which)
        got, want = predict(p, params, ctx, model)
        ctx.check(tuple(got.shape) == (len(p.rows),), 'shape of the long '
                  'probabilities', got.shape)
        ctx.see(got)
        proper(ctx, p, got)
        if not in_range(p, params):
            continue
        ctx.close(got, want, 'predict %s params %s' % (p.cfg, which),
                  rtol=1e-7, atol=1e-10)
        if scn.get('est'):
            est = p.estimator(model)
            ch, lg = ctx.call(est.convenience_calc_probs, np.array(params))
            if p.type == 'Mixed Logit':
                k = ref.kernel_probs(p, params)
                want_l = [[k[d][r].real for d in range(len(k))]
                          for r in range(len(p.rows))]
                want_c = []
                for i in p.obs_order:
                    for r, (o, a) in enumerate(p.rows):
                        if o == i and p.choice[r]:
                            want_c.append(want_l[r])
            else:
                want_l = want
                want_c = []
                for i in p.obs_order:
                    want_c.append(sum(want[r] for r, (o, a) in
                                      enumerate(p.rows)
                                      if o == i and p.choice[r]))
            ctx.close(lg, want_l, 'estimation probabilities', rtol=1e-7,
                      atol=1e-10)
            ctx.close(ch, want_c, 'estimation chosen probabilities',
                      rtol=1e-7, atol=1e-10)


def gen_small(tier):
    full = tier == 'thorough'
    for n in (1, 2):
        for pat in patterns(2, n):
            for cfg in configs(2, MIXSETS):
                yield dict(pat=pat, model=cfg, spec='xy',
                           par=['zero', 'a', 'c', 'e'], est=1)
    for pat in patterns(3, 1):
        for cfg in configs(3, MIXSETS):
            yield dict(pat=pat, model=cfg, spec='xy',
                       par=['zero', 'a', 'c', 'e'], est=1)
    for pat in patterns(3, 2, ordered=full):
        for cfg in configs(3, MIXSMALL):
            yield dict(pat=pat, model=cfg, spec='xy',
                       par=['a', 'e'] if full else ['a'])
    if not full:
        for pat in patterns(3, 2):
            for cfg in configs(3, MIXSMALL, small=True)[::2]:
                yield dict(pat=pat, model=cfg, spec='xy', par=['c'])
    else:
        for pat in patterns(3, 3, ordered=False):
            for cfg in configs(3, MIXSMALL, small=True):
                yield dict(pat=pat, model=cfg, spec='xy', par=['c'])


def gen_labels(tier):
    pats = [[[[2, 0, 1], 1], [[0, 2], 2]], [[[1, 2], 2], [[2, 1, 0], 0]],
            [[[0, 1, 2], 0], [[1], 1], [[2, 1], 1]]]
    for labels in LABELS3:
        for pat in pats:
            for cfg in configs(3, MIXSETS):
                for spec in ('ixg', 'xd', 'ix'):
                    if cfg['type'] == 'Mixed Logit' and spec != 'ixg':
                        continue
                    c = dict(cfg)
                    if c['type'] == 'Mixed Logit':
                        c['mixing'] = ['b_y', 'b_x_[0, 1]']
                    for ids in ([50, -3, 8][:len(pat)],):
                        for vals in ('real', 'int', 'zero'):
                            yield dict(pat=pat, model=c, spec=spec,
                                       alts=labels, ids=ids, vals=vals,
                                       mix=mixids(len(pat), 'panel'),
                                       par=['a', 'c'])


def gen_medium(tier):
    for kind in ('alts6', 'alts12', 'obs30', 'mix'):
        pat = medium(kind)
        J = max(max(s) for s, _ in pat) + 1
        for cfg in med_configs(J):
            for mk in ('own', 'panel', 'alternate', 'one'):
                if cfg['type'] != 'Mixed Logit' and mk != 'own':
                    continue
                yield dict(pat=pat, model=cfg, spec='xy', est=1,
                           mix=mixids(len(pat), mk),
                           par=['zero', 'a', 'b', 'c', 'd', 'e'])
                # identical observations
                yield dict(pat=pat + pat, model=cfg, spec='xy', est=1,
                           valid=list(range(len(pat))) * 2,
                           mix=mixids(2 * len(pat), mk),
                           par=['a', 'd'])


MAGS = [0.0, 1.0, -1.0, 12.0, -12.0, 45.0, -45.0, 800.0, -800.0, 1e5, -1e5]


def softplus(v):
    return v + math.log1p(math.exp(-v)) if v > 0 else math.log1p(math.exp(v))


def lse(xs):
    m = max(xs)
    return m + math.log(sum(math.exp(x - m) for x in xs))


def exact_utility(p, v, apos, shapes):
    """Transformed utility in a form that cannot overflow. Two values where
    double precision leaves the library anywhere between them, None where it
    does not determine anything."""
    if p.type == 'MNL':
        return [v]
    if p.type == 'Asym':
        eta = list(shapes)
        eta.insert(p.cfg['sref'], 0.0)
        if max(eta) - min(eta) > 600:
            return None
        tot = lse(eta)
        if v >= 0:
            return [(eta[apos] - tot) * (1 - v)]
        rest = lse(eta[:apos] + eta[apos + 1:]) - tot
        h = eta[apos] - tot - v * (rest - math.log(p.J - 1))
        return [h] if rest > -10 else [h, -1e9]      # 1 - c is rounded
    if p.type == 'Cloglog':
        if v < -25:
            return [v, -1e9]
        u = math.exp(min(v, 700.0))
        return [u + math.log(-math.expm1(-u))]
    gam = math.exp(max(-740.0, min(700.0, shapes[apos])))
    if p.type == 'Scobit':
        q = gam * softplus(-v)
        if q < 1e-6:
            return [13.0, 1e9]
        h = -(q + math.log(-math.expm1(-q)))
        return [h] if v < 20 else [h, 1e9]           # 1 + exp(-v) is rounded
    return [softplus(v) - softplus(-gam * v)]


def limits(p, params):
    """Exact probabilities, None unless they are also what the library's
    documented clipping of utilities at +-700 gives."""
    if p.type == 'Mixed Logit':
        return None
    if p.type == 'Nested Logit':
        return nested_limits(p, params)
    n, s, c, b, g = p.sizes()
    shapes, asc, beta = params[n:n + s], params[n + s:n + s + c], \
        params[n + s + c:]
    if c:
        asc = list(asc[:p.cfg['iref']]) + [0.0] + list(asc[p.cfg['iref']:])
    apos = dict((q, k) for k, q in enumerate(p.pos))
    hs = []
    for (i, a), row in zip(p.rows, p.design()):
        h = exact_utility(p, sum(x * y for x, y in zip(row, beta)), apos[a],
                          shapes)
        if h is None:
            return None
        hs.append([x + (asc[apos[a]] if c else 0.0) for x in h])
    first = None
    for pick in product(*hs):
        for cut in (1e300, 700.0):
            hh = [max(-cut, min(cut, h)) for h in pick]
            by = {}
            for (i, a), h in zip(p.rows, hh):
                by.setdefault(i, []).append(h)
            out = [math.exp(h - lse(by[i]))
                   for (i, a), h in zip(p.rows, hh)]
            if first is None:
                first = out
            elif any(abs(x - y) > 1e-8 for x, y in zip(first, out)):
                return None
    return first


def nested_limits(p, params):
    n = p.sizes()[0]
    lam = [1 / (1 + math.exp(-max(-700.0, x))) for x in params[:n]]
    where = dict((q, k) for k, nest in enumerate(p.cfg['nests'])
                 for q in nest)
    out = []
    for cut in (1e300, 650.0):
        u, by = [], {}
        for r, ((i, a), row) in enumerate(zip(p.rows, p.design())):
            v = sum(x * y for x, y in zip(row, params[n:]))
            u.append(max(-cut, min(cut, v / lam[where[a]])))
            by.setdefault(i, {}).setdefault(where[a], []).append(r)
        res = [0.0] * len(u)
        for nests in by.values():
            inc = dict((k, lse([u[r] for r in rr]))
                       for k, rr in nests.items())
            den = lse([lam[k] * x for k, x in inc.items()])
            for k, rr in nests.items():
                for r in rr:
                    res[r] = math.exp(u[r] - inc[k] + lam[k] * inc[k] - den)
        out.append(res)
    ok = all(abs(x - y) < 1e-8 for x, y in zip(*out))
    return out[0] if ok else None


def run_extreme(scn, ctx):
    p = Prob(scn)
    model = ctx.call(p.model)
    n, s, c, b, g = p.sizes()
    base = p.params('a')
    params = ([scn['nest']] * n if n else [])
    params += [scn['shape'] * (1 if k % 2 == 0 else -0.7) for k in range(s)]
    params += [scn['ic'] * (1 if k % 2 == 0 else -0.5) for k in range(c)]
    params += [scn['beta'] * x for x in base[n + s + c:]]
    kw = dict(num_draws=p.cfg['draws'], seed=17) \
        if p.type == 'Mixed Logit' else {}
    got = ctx.call(model.predict, p.df(), param_list=p.param_list(params),
                   **kw)
    proper(ctx, p, got, 1e-6)
    ctx.see(got)
    want = limits(p, params)
    if want is not None:
        ctx.close(got, want, 'predict %s at extreme parameters %s' %
                  (p.cfg, params), rtol=0, atol=1e-6)
    est = p.estimator(model)
    ch, lg = ctx.call(est.convenience_calc_probs, np.array(params))
    for arr in (ch, lg):
        a = np.asarray(arr, dtype=float)
        ctx.check(bool(np.isfinite(a).all() and (a <= 1 + 1e-9).all()),
                  'estimation probabilities not finite', arr)
    ctx.check(bool((np.asarray(lg) > 0).all()), 'zero probability', lg)
    ctx.check(bool((np.asarray(ch) > 0).all()), 'zero probability of the '
              'chosen alternative', ch)
    both = ctx.call(model.predict, p.df(), param_list=p.param_list(params),
                    choice_col='choice', **kw)
    want_c = [sum(got[r] for r, (o, a) in enumerate(p.rows)
                  if o == i and p.choice[r]) for i in p.obs_order]
    ctx.close(np.asarray(both[0]), want_c, 'chosen probabilities at extreme '
              'parameters %s' % (params,), rtol=1e-6, atol=0)


def gen_extreme(tier):
    pats = [[[[0, 1, 2], 1]], [[[0, 2], 0], [[2, 1, 0], 2]],
            [[[1], 1], [[0, 1, 2], 0]]]
    mags = MAGS if tier == 'thorough' else MAGS[:2] + MAGS[3:]
    cfgs = configs(3, (['b_x'],), small=True)
    for pat in pats:
        for cfg in cfgs:
            t = cfg['type']
            nest = [0.0, 30.0, -3.0, -30.0, -800.0, 800.0] \
                if t == 'Nested Logit' else [0]
            shape = [0.0, 3.0, -3.0, 40.0, -40.0, 300.0, 800.0, -800.0] \
                if t in ('Asym', 'Scobit', 'Uneven') else [0]
            ic = [0.0, 30.0, -800.0] if cfg.get('iref') is not None else [0]
            for be, ne, sh, i in product(mags, nest, shape, ic):
                yield dict(pat=pat, model=cfg, spec='xy', beta=be, nest=ne,
                           shape=sh, ic=i)


def gen_large(tier):
    for kind in ('obs300', 'alts140'):
        pat = medium(kind)
        J = max(max(s) for s, _ in pat) + 1
        for cfg in med_configs(J):
            for mk in ('own', 'panel', 'one'):
                if cfg['type'] != 'Mixed Logit' and mk != 'own':
                    continue
                yield dict(pat=pat, model=cfg, spec='xy', est=1,
                           mix=mixids(len(pat), mk), par=['a', 'd'])


def run_int(scn, ctx):
    """Whole-number parameters given as integer arrays."""
    p = Prob(scn)
    x = [float(scn['seq'][k % len(scn['seq'])])
         for k in range(p.nparams())]
    model = ctx.call(p.model)
    kw, draws = {}, None
    if p.type == 'Mixed Logit':
        kw = dict(num_draws=p.cfg['draws'], seed=17)
        draws = seed_draws(p, 17)
    elif not est_usable(p, x):
        return
    want = ref.real(ref.probs(p, x, draws))
    for t in ('int64', 'int32', 'float64'):
        pl = [None if a is None else a.astype(t) for a in p.param_list(x)]
        got = ctx.call(model.predict, p.df(), param_list=pl, **kw)
        ctx.close(got, want, 'predict %s with %s parameters %s' %
                  (p.cfg, t, x), rtol=1e-7, atol=1e-10)
        m2 = ctx.call(p.model)
        ctx.call(m2.fit_mle, np.array(x).astype(t), maxiter=0,
                 ridge=0.5, print_res=False, **kw)
        got = ctx.call(m2.predict, p.df(), **kw)
        ctx.close(got, want, 'predict %s from %s estimates' % (p.cfg, t),
                  rtol=1e-7, atol=1e-10)
        ctx.see(got)


def gen_int(tier):
    for pat in [[[[2, 0, 1], 1], [[0, 2], 2]], medium('mix')]:
        J = max(max(s) for s, _ in pat) + 1
        for cfg in (configs(3, MIXSMALL, small=tier != 'thorough')
                    if J == 3 else med_configs(J)):
            for seq in ([0], [1, -1], [-1, 2, 0], [3, 1, -2]):
                yield dict(pat=pat, model=cfg, spec='xy', seq=seq)


def gen_dtypes(tier):
    import est
    return est.gen_dtypes(tier, est=1)


def run_shifted(scn, ctx):
    """Utilities far from zero whose differences are moderate: the formula
    still decides (a common shift changes nothing)."""
    p = Prob(scn)
    model = ctx.call(p.model)
    n, s, c, b, g = p.sizes()
    df = p.df()
    sh = [scn['shift'] * (-1 if scn.get('turn') and i % 2 else 1)
          for i in range(p.n)]
    p.raw = (lambda old: lambda v, i, a: sh[i] + 0.5 * old(v, i, a)
             if v == 'x' else old(v, i, a))(p.raw)
    df['x'] = [p.raw('x', i, a) for i, a in p.rows]
    params = p.params('d')[:n + s]
    if p.type in ('Asym', 'Uneven', 'Scobit'):
        params = [0.25 * v for v in params]
    params += p.params('d')[n + s:n + s + c] + [1.0, 0.5] + [0.05] * g
    if p.type == 'Mixed Logit':
        kw = dict(num_draws=p.cfg['draws'], seed=17)
        draws = seed_draws(p, 17)
    else:
        kw, draws = {}, None
        if not est_usable(p, params):
            return
    got = ctx.call(p.model(df=df).predict, df,
                   param_list=p.param_list(params), **kw)
    proper(ctx, p, got)
    want = ref.real(ref.probs(p, params, draws))
    if p.type == 'Cloglog' and not np.allclose(got, want, rtol=1e-6,
                                               atol=1e-10):
        pinned = cloglog_pinned(p, params)
        if pinned is not None:
            ctx.close(got, pinned, 'cloglog far below zero: neither right '
                      'nor the known value', rtol=1e-5, atol=1e-9)
            ctx.finding('cloglog-underflow', 'log(exp(exp(v)) - 1) is '
                        'evaluated without expm1, so every index below '
                        'about -37 gets one and the same utility')
            return
    ctx.close(got, want,
              'predict %s with utilities near %s' % (p.cfg, scn['shift']),
              rtol=1e-6, atol=1e-10)
    ctx.see(got)


def cloglog_pinned(p, params):
    """What the library gives when an index lies below -25 (else None)."""
    n, s, c, b, g = p.sizes()
    asc = params[:c]
    if c:
        asc = asc[:p.cfg['iref']] + [0.0] + asc[p.cfg['iref']:]
    apos = dict((q, k) for k, q in enumerate(p.pos))
    hs, low = [], False
    for (i, a), row in zip(p.rows, p.design()):
        v = sum(x * y for x, y in zip(row, params[c:]))
        low = low or v < -25
        e = math.exp(math.exp(v)) - 1 if v < 3.7 else None
        h = math.exp(v) if e is None else (math.log(e) if e else -1e300)
        h += asc[apos[a]] if c else 0.0
        hs.append(max(-700.0, min(700.0, h)))
    if not low:
        return None
    tot = {}
    for (i, a), h in zip(p.rows, hs):
        tot[i] = tot.get(i, 0.0) + math.exp(h)
    return [math.exp(h) / tot[i] for (i, a), h in zip(p.rows, hs)]


def est_usable(p, params):
    import est
    return est.usable(p, params, 640)


def gen_shifted(tier):
    pats = [[[[0, 1, 2], 1]], [[[0, 2], 0], [[2, 1, 0], 2]]]
    for pat in pats + [medium('mix')]:
        J = max(max(s) for s, _ in pat) + 1
        cfgs = configs(3, (['b_x'],), small=True) if J == 3 else \
            med_configs(J)
        for cfg in cfgs:
            for sh in (20.0, -20.0, 120.0, -120.0, 350.0, -350.0, 450.0,
                       -450.0, 600.0, -600.0):
                if cfg['type'] == 'Mixed Logit' and abs(sh) > 350:
                    continue
                yield dict(pat=pat, model=cfg, spec='xy', shift=sh)
                if len(pat) > 1:
                    # high and low utilities side by side
                    yield dict(pat=pat, model=cfg, spec='xy', shift=sh,
                               turn=1)


FAMILIES = [
    Family('formula-small', gen_small, run_formula,
           'all choice-set patterns (ordered sets and choice) with <=2 '
           'observations and <=3 alternatives (J=3,n=2: unordered for every '
           'configuration, ordered for representative ones; thorough: all '
           'ordered, and n=3), every reference position, nest partition and '
           'number of draws 1-3, parameter vectors zero/a/c/e', 50),
    Family('formula-labels', gen_labels, run_formula,
           '4 alternative labellings x 3 patterns x all configurations x 3 '
           'specifications x 3 value tables', 50),
    Family('formula-medium', gen_medium, run_formula,
           '4 datasets with 4-12 alternatives or 30 observations x '
           '12 configurations x 6 parameter vectors', 10),
    Family('formula-large', gen_large, run_formula,
           '300 observations of 3 alternatives, 3 observations of 140 '
           'alternatives x 12 configurations', 10),
    Family('formula-dtypes', gen_dtypes, run_formula,
           '15 combinations of column types (8-64 bit integers, floats, '
           'bool, object) x 2 datasets x model types', 20),
    Family('formula-integers', gen_int, run_int,
           '2 datasets x model types x 4 integer parameter vectors given as '
           'int64, int32 and float64 to predict and fit_mle', 10),
    Family('formula-shifted', gen_shifted, run_shifted,
           '3 datasets x model types with utilities of +-20..+-600 that '
           'differ by little', 10),
    Family('proper-extreme', gen_extreme, run_extreme,
           'coefficient magnitudes 0..1e5, shapes and nest parameters up to '
           '800, intercepts up to 800, every model type', 10),
]
ASSUMPTIONS = [
    'formula compared for utilities within +-640; beyond that the clipped '
    'arithmetic of the library is only required to give proper probabilities',
    'values come from fixed palettes (reals, integers, zeros)',
]
