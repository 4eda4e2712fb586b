"""C09: the gradient is the derivative of the log-likelihood."""
import numpy as np

import est
import ref
from core import Family


def compare(ctx, p, got, params, w, ridge, what, tol=1e-6, draws=None):
    want = ref.grad(p, params, w, ridge, draws)
    scale = max([1.0] + [abs(x) for x in want])
    if p.type == 'Nested Logit' and ridge:
        # known finding: the penalty's derivative is taken around 20 on the
        # estimation scale instead of around one on the natural scale
        un = ref.grad(p, params, w, None)
        n = p.sizes()[0]
        pinned = [u - 2 * ridge * ((20 - x) if k < n else x)
                  for k, (u, x) in enumerate(zip(un, params))]
        same = np.allclose(np.asarray(got, dtype=float), want, rtol=tol,
                           atol=tol * scale)
        if not same:
            ctx.close(got, pinned, what + ' (ridge penalised nested logit '
                      'is neither right nor the known value)', rtol=tol,
                      atol=tol * scale)
            ctx.finding('nested-ridge-gradient',
                        'calc_nested_gradient penalises (20 - nest) instead '
                        'of differentiating the penalised log-likelihood')
            return
    ctx.close(got, want, what, rtol=tol, atol=tol * scale * 1e-1)


def run(scn, ctx):
    for p, e, params, w, ridge in est.cases(scn, ctx):
        if est.at_kink(p, params):
            continue
        got = ctx.call(e.convenience_calc_gradient, np.array(params))
        ctx.check(tuple(got.shape) == (len(params),), 'gradient shape',
                  got.shape)
        compare(ctx, p, got, params, w, ridge, 'gradient %s weights %s '
                'ridge %s' % (p.cfg, w, ridge))
        ctx.see(got)


def run_constrained(scn, ctx):
    """The optimiser sees a zero derivative exactly at fixed parameters."""
    con = scn['con']
    for p, e, params, w, ridge in est.cases(scn, ctx, constrained=con):
        if est.at_kink(p, params):
            continue
        neg_ll, neg = ctx.call(e.calc_neg_log_likelihood_and_neg_gradient,
                               np.array(params))
        want = ref.grad(p, params, w, ridge)
        for k in con:
            want[k] = 0.0
        ctx.close([-x for x in neg], want, 'constrained gradient',
                  rtol=1e-6, atol=1e-7)
        ctx.close(-float(neg_ll), ref.loglik(p, params, w, ridge).real,
                  'objective with constraints')
        full = ctx.call(e.convenience_calc_gradient, np.array(params))
        ctx.close(full, ref.grad(p, params, w, ridge), 'reported gradient '
                  'with constraints', rtol=1e-6, atol=1e-7)
        ctx.see(neg)


def gen_constrained(tier):
    from itertools import combinations
    pat = est.OPT_PATS[1]
    for cfg in est.configs(3, est.MIXSMALL, small=True):
        p = est.Prob(dict(pat=pat, model=cfg, spec='xy'))
        K = p.nparams()
        for r in range(0, K + 1):
            for con in combinations(range(K), r):
                if tier != 'thorough' and 2 < r < K - 1:
                    continue
                yield dict(pat=pat, model=cfg, spec='xy', con=list(con),
                           mix=est.mixids(len(pat), 'panel'),
                           par=['a'], wr=[[1, 0]] if
                           cfg['type'] == 'Nested Logit' else
                           [[1, 0], [1, 2]])


def run_reported(scn, ctx):
    p = est.Prob(scn)
    menu = est.weight_menu(p.nunits())
    for wi, ri in scn['wr']:
        w, ridge = menu[wi], est.RIDGES[ri]
        for which in scn['par']:
            params = p.params(which)
            if not est.usable(p, params) or est.at_kink(p, params):
                continue
            model = ctx.call(p.model)
            kw, draws = {}, None
            if p.type == 'Mixed Logit':
                from checks.c06 import seed_draws
                kw = dict(num_draws=p.cfg['draws'], seed=17)
                draws = seed_draws(p, 17)
            ctx.call(model.fit_mle, np.array(params), maxiter=0,
                     print_res=False, ridge=ridge,
                     weights=p.row_weights(w), **kw)
            ctx.eq(model.gradient.index.tolist(), p.param_names(),
                   'labels of the gradient')
            compare(ctx, p, model.gradient.values, params, w, ridge,
                    'reported gradient %s' % (p.cfg,), draws=draws)
            ctx.see(model.gradient.values)


def gen_reported(tier):
    for s in est.reported_pats(tier):
        yield dict(s, par=['a', 'd'], wr=[[0, 0], [1, 2]])


FAMILIES = [
    Family('small', lambda t: est.gen_small(t), run, est.BOUNDS['small'], 20),
    Family('options', est.gen_options, run, est.BOUNDS['options'], 20),
    Family('mixing-units', est.gen_mixing, run, est.BOUNDS['mixing'], 20),
    Family('medium', est.gen_medium, run, est.BOUNDS['medium'], 10),
    Family('panels', est.gen_panels, run, est.BOUNDS['panels'], 2),
    Family('steep', est.gen_steep, run, est.BOUNDS['steep'], 5),
    Family('large', est.gen_large, run, est.BOUNDS['large'], 5),
    Family('weights', est.gen_weights, run, est.BOUNDS['weights'], 10),
    Family('dtypes', est.gen_dtypes, run, est.BOUNDS['dtypes'], 10),
    Family('edge', est.gen_edge, run, est.BOUNDS['edge'], 10),
    Family('constrained', gen_constrained, run_constrained,
           'every subset of fixed parameters (quick: sizes 0,1,2,K-1,K) for '
           'every model type on one dataset', 20),
    Family('reported', gen_reported, run_reported,
           'gradient Series after fit_mle without iterations on 2 medium '
           'datasets x every model type x weights/ridge', 5),
]
ASSUMPTIONS = [
    'simulated choice sequences have a probability above 1e-300 (see the '
    'known finding of C08)',
    'oracle: complex-step derivative of an independent reference '
    'log-likelihood',
    'asymmetric logit is compared only where no utility is exactly zero (the '
    'log-likelihood has a kink there)',
]
