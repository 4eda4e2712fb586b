"""C11: integer weights are equivalent to replicating observations."""
from itertools import product

import numpy as np

import est
import gen
from core import Family
from gen import Prob, patterns, configs
from checks.c06 import medium, med_configs, mixids


def expand(scn, w):
    """The scenario whose data holds w[u] copies of each unit (observation,
    or mixing unit for mixed logit), plus the matching draws."""
    p = Prob(scn)
    pat, valid, mix, units = [], [], [], []
    base = scn.get('valid') or list(range(p.n))
    if p.type == 'Mixed Logit':
        draws = p.draws()
        new = [[] for _ in draws]
        uid = 100
        for u, m in enumerate(p.mix_order):
            for _ in range(w[u]):
                for i in range(p.n):
                    if p.mix[i] == m:
                        pat.append(scn['pat'][i])
                        valid.append(base[i])
                        mix.append(uid)
                for v in range(len(draws)):
                    new[v].append(draws[v][u])
                uid -= 3
    else:
        new = None
        for i in range(p.n):
            for _ in range(w[i]):
                pat.append(scn['pat'][i])
                valid.append(base[i])
    if not pat:
        return None
    d = dict(scn, pat=pat, valid=valid, mix=mix or None, ids=None)
    q = Prob(d)
    if new is not None:
        q.draws = lambda: new
    if q.pos != p.pos and (p.type not in ('MNL', 'Cloglog', 'Mixed Logit') or
                           p.cfg.get('iref') is not None):
        return None
    return q


def calcs(ctx, p, e, params):
    x = np.array(params)
    out = dict(ll=float(ctx.call(e.convenience_calc_log_likelihood, x)),
               grad=np.array(ctx.call(e.convenience_calc_gradient, x)),
               hess=np.array(ctx.call(e.convenience_calc_hessian, x)))
    if p.type not in ('Nested Logit', 'Mixed Logit'):
        out['info'] = np.array(ctx.call(e.convenience_calc_fisher_approx, x))
    nl = ctx.call(e.calc_neg_log_likelihood_and_neg_gradient, x)
    out['negll'], out['neggrad'] = float(nl[0]), np.array(nl[1])
    return out


def same(ctx, a, b, msg, factor=1.0):
    for k in a:
        A, B = np.asarray(a[k]), np.asarray(b[k]) * factor
        s = max(1.0, float(np.abs(B).max()))
        ctx.close(A, B, '%s: %s' % (k, msg), rtol=1e-8, atol=1e-9 * s)


def run_calc(scn, ctx):
    p = Prob(scn)
    model = ctx.call(p.model)
    for wi, w in enumerate(scn['weights']):
        q = expand(scn, w)
        if q is None:
            continue
        qm = ctx.call(q.model)
        for ridge in scn['ridge']:
            if ridge is not None and wi % 3 and not scn.get('full'):
                continue
            e = ctx.call(p.estimator, model, ridge=ridge,
                         weights=p.row_weights(w))
            f = ctx.call(q.estimator, qm, ridge=ridge)
            for which in scn['par']:
                params = p.params(which)
                a = calcs(ctx, p, e, params)
                b = calcs(ctx, q, f, params)
                same(ctx, a, b, 'weights %s vs copies, %s ridge %s' %
                     (w, p.cfg, ridge))
                ctx.see(a['ll'], a['grad'])
                if ridge is None and wi % 4 == 0:
                    for c in (0.5, 3.0):
                        g = ctx.call(p.estimator, model,
                                     weights=p.row_weights(
                                         [c * x for x in w]))
                        same(ctx, calcs(ctx, p, g, params), a,
                             'weights scaled by %s, %s' % (c, p.cfg), c)


def vecs(n, top):
    return [list(v) for v in product(range(top + 1), repeat=n) if any(v)]


def gen_calc(tier):
    full = tier == 'thorough'
    for pat in patterns(2, 2, ordered=full):
        for cfg in configs(2, est.MIXSMALL):
            yield dict(pat=pat, model=cfg, spec='xy', par=['a'], full=full,
                       ridge=[None, 0.7], weights=vecs(2, 3))
    for pat in patterns(3, 2, ordered=False):
        for cfg in configs(3, est.MIXSMALL, small=True):
            yield dict(pat=pat, model=cfg, spec='xy', par=['c'],
                       ridge=[None], weights=vecs(2, 2) if full else
                       [[2, 1], [0, 3], [3, 0], [1, 2]])
    pats3 = est.OPT_PATS[1:]
    for pat in pats3:
        for cfg in configs(3, est.MIXSETS):
            mixes = est.partitions_of_obs(3) \
                if cfg['type'] == 'Mixed Logit' else [None]
            for mix in mixes:
                p = Prob(dict(pat=pat, model=cfg, spec='xy', mix=mix))
                yield dict(pat=pat, model=cfg, spec='xy', mix=mix,
                           par=['a', 'e'] if full else ['a'],
                           ridge=[None, 2] if full else [None],
                           weights=vecs(p.nunits(), 2))


def gen_medium(tier):
    for kind in ('alts6', 'obs30', 'mix', 'obs300'):
        pat = medium(kind)
        J = max(max(s) for s, _ in pat) + 1
        for cfg in med_configs(J):
            for mk in ('own', 'panel'):
                if cfg['type'] != 'Mixed Logit' and mk != 'own':
                    continue
                s = dict(pat=pat, model=cfg, spec='xy',
                         mix=mixids(len(pat), mk))
                n = Prob(s).nunits()
                ws = [[(i * 7 + k) % (3 + k) for i in range(n)]
                      for k in range(3)]
                yield dict(s, par=['a', 'd'], ridge=[None, 0.7], weights=ws)


def run_types(scn, ctx):
    """The type of the weights array does not matter."""
    p = Prob(scn)
    w = scn['w']
    q = expand(scn, w)
    e = ctx.call(p.estimator, ctx.call(p.model), ridge=scn['ridge'],
                 weights=p.row_weights(w).astype(scn['wtype']))
    f = ctx.call(q.estimator, ctx.call(q.model), ridge=scn['ridge'])
    for which in ('a', 'd'):
        params = p.params(which)
        a = calcs(ctx, p, e, params)
        same(ctx, a, calcs(ctx, q, f, params), '%s weights %s vs copies, '
             '%s ridge %s' % (scn['wtype'], w, p.cfg, scn['ridge']))
        ctx.see(a['ll'], a['grad'])
    if p.type == 'Mixed Logit' or p.n < 6:   # not identified
        return
    res = []
    for r, wt in ((p, p.row_weights(w).astype(scn['wtype'])), (q, None)):
        m = ctx.call(r.model)
        ctx.call(m.fit_mle, np.array(p.params('d')), maxiter=0,
                 print_res=False, ridge=scn['ridge'], weights=wt)
        res.append(dict(ll=m.log_likelihood, null=m.null_log_likelihood,
                        grad=m.gradient.values, hess=m.hessian.values))
    same(ctx, res[0], res[1], 'reported with %s weights %s vs copies' %
         (scn['wtype'], w))


def gen_types(tier):
    for kind in ('small', 'mix'):
        pat = est.OPT_PATS[1] if kind == 'small' else medium('mix')
        J = max(max(s) for s, _ in pat) + 1
        for cfg in (configs(3, est.MIXSMALL, small=True) if J == 3
                    else med_configs(J)):
            s = dict(pat=pat, model=cfg, spec='xy',
                     mix=mixids(len(pat), 'panel'))
            n = Prob(s).nunits()
            for t, w in (('int64', [2, 1, 3]), ('int32', [1, 2]),
                         ('int8', [3, 1]), ('uint8', [1, 1, 2]),
                         ('float32', [2, 3, 1]), ('float16', [1, 3]),
                         ('bool', [1]), ('int64', [1]), ('uint8', [40, 1]),
                         ('int64', [2]), ('float64', [3])):
                for ridge in (None, 0.7):
                    yield dict(s, wtype=t, ridge=ridge,
                               w=[w[i % len(w)] for i in range(n)])


def run_fit(scn, ctx):
    """fit_mle with weights versus fit_mle on the copies."""
    p = Prob(scn)
    w = scn['w']
    q = expand(scn, w)
    init = np.array(p.params('d')) * 0.5
    # the nest parameters of these small datasets are not identified
    con = list(range(p.sizes()[0])) or None
    kw = dict(print_res=False, ridge=scn['ridge'], constrained_pos=con)
    res = []
    for r, wt in ((p, p.row_weights(w)), (q, None)):
        m = ctx.call(r.model)
        point = ctx.call(m.fit_mle, init.copy(), just_point=True,
                         weights=wt, gradient_tol=1e-8, loss_tol=1e-10,
                         method=scn['method'], **kw)
        m2 = ctx.call(r.model)
        ctx.call(m2.fit_mle, init.copy(), maxiter=0, weights=wt, **kw)
        res.append((np.array(point['x']), -float(point['fun']),
                    dict(ll=m2.log_likelihood, null=m2.null_log_likelihood,
                         grad=m2.gradient.values, hess=m2.hessian.values,
                         info=m2.fisher_information.values,
                         se=m2.standard_errors.values,
                         rho=m2.rho_squared, rbar=m2.rho_bar_squared,
                         aic=m2.aic)))
    (xa, la, ra), (xb, lb, rb) = res
    if p.type == 'Nested Logit':
        ra.pop('info'), rb.pop('info')
    same(ctx, ra, rb, 'reported results with weights %s vs copies %s' %
         (w, p.cfg))
    ctx.close(la, lb, 'maximised log-likelihood %s' % p.cfg, rtol=1e-6,
              atol=1e-6)
    ctx.close(xa, xb, 'estimates with weights %s vs copies %s' % (w, p.cfg),
              rtol=2e-3, atol=2e-3)
    ctx.see(np.round(xa, 3))


def gen_fit(tier):
    for kind in ('obs30', 'mix') if tier == 'thorough' else ('mix',):
        pat = medium(kind)
        n = len(pat)
        J = max(max(s) for s, _ in pat) + 1
        for cfg in med_configs(J):
            if cfg['type'] in ('Mixed Logit',):
                continue
            for k in range(3):
                w = [(i * 7 + k) % (2 + k) for i in range(n)]
                if k == 2:
                    w = [x + 1 for x in w]
                w[0] += 1
                for method in ('BFGS', 'L-BFGS-B'):
                    yield dict(pat=pat, model=cfg, spec='xy', w=w,
                               ridge=None if cfg['type'] == 'Nested Logit'
                               else 0.7, method=method)


FAMILIES = [
    Family('calculations', gen_calc, run_calc,
           'J=2,n=2: every weight vector in {0..3}^2 x every configuration; '
           'J=3: n=2 every unordered pattern, n=3 every weight vector in '
           '{0..2}^n on two patterns x every configuration and mixing '
           'assignment; ridge; scaling by 0.5 and 3', 20),
    Family('medium', gen_medium, run_calc,
           '4 datasets with up to 6 alternatives or 300 observations', 5),
    Family('weight-types', gen_types, run_types,
           '2 datasets x model types x 8 types of the weights array', 10),
    Family('estimation', gen_fit, run_fit,
           'full estimation (BFGS, L-BFGS-B) with ridge 0.7, 3 weight '
           'vectors x 11 configurations', 5),
]
ASSUMPTIONS = [
    'a weight of zero that removes an alternative from the data is only '
    'compared for models without alternative-specific parameters',
    'estimation is compared for logit-type and nested models; for mixed logit '
    'the objective and its derivatives are compared with identical draws for '
    'the copies',
]
