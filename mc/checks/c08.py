"""C08: the log-likelihood is the weighted log-probability of the choices."""
import numpy as np

import est
import ref
from core import Family


def run(scn, ctx):
    for p, e, params, w, ridge in est.cases(scn, ctx):
        got = ctx.call(e.convenience_calc_log_likelihood, np.array(params))
        want = ref.loglik(p, params, w, ridge).real
        ctx.check(np.ndim(got) == 0, 'log-likelihood is not a scalar', got)
        ctx.close(float(got), want, 'log-likelihood %s weights %s ridge %s'
                  % (p.cfg, w, ridge), rtol=1e-8, atol=1e-8)
        ctx.see(float(got))
        neg = ctx.call(e.calc_neg_log_likelihood_and_neg_gradient,
                       np.array(params))[0]
        ctx.close(float(neg), -want, 'minimised objective', rtol=1e-8,
                  atol=1e-8)


def run_reported(scn, ctx):
    """Values reported by fit_mle at a fixed point (no iterations)."""
    p = est.Prob(scn)
    menu = est.weight_menu(p.nunits())
    for wi, ri in scn['wr']:
        w, ridge = menu[wi], est.RIDGES[ri]
        if ridge is None and scn.get('need_ridge'):
            continue
        for which in scn['par']:
            params = p.params(which)
            if not est.usable(p, params):
                continue
            model = ctx.call(p.model)
            kw, draws = {}, None
            if p.type == 'Mixed Logit':
                from checks.c06 import seed_draws
                kw = dict(num_draws=p.cfg['draws'], seed=17)
                draws = seed_draws(p, 17)
            ctx.call(model.fit_mle, np.array(params), maxiter=0,
                     print_res=False, ridge=ridge,
                     weights=p.row_weights(w), **kw)
            want = ref.loglik(p, params, w, ridge, draws).real
            null = ref.loglik(p, [0.0] * len(params), w, ridge, draws).real
            ctx.close(model.params.values, params, 'maxiter=0 moved')
            ctx.close(float(model.log_likelihood), want,
                      'reported log-likelihood', rtol=1e-8, atol=1e-8)
            ctx.close(float(model.llf), want, 'llf', rtol=1e-8, atol=1e-8)
            ctx.close(float(model.null_log_likelihood), null,
                      'reported null log-likelihood', rtol=1e-8, atol=1e-8)
            ctx.see(want, null)


def gen_reported(tier):
    for s in est.reported_pats(tier):
        s = dict(s, par=['a', 'd'], wr=[[0, 0], [1, 2], [1, 0]])
        yield s


def gen_underflow(tier):
    """Panels so long that a unit's sequence probability underflows."""
    for n in (280, 640, 1000):
        pat = []
        for i in range(n):
            s = [0, 1, 2] if i % 5 else [2, 0]
            pat.append([s, s[(i * 7 + i // 3) % len(s)]])
        for mix in ([3] * n, [8 if i < 20 else 2 for i in range(n)],
                    [8 if i % 2 else 2 for i in range(n)]):
            for m, R in ((['b_y'], 2), (['b_y', 'b_x'], 3)):
                yield dict(pat=pat, mix=mix, spec='xy',
                           model={'type': 'Mixed Logit', 'mixing': m,
                                  'draws': R},
                           par=['zero', 'a', 'c'], wr=[[0, 0], [1, 2]])


def run_underflow(scn, ctx):
    """Sequence probabilities far below the smallest double: the
    log-likelihood is still determined (log-sum-exp over the draws)."""
    import math
    kernels = {}
    for p, e, params, w, ridge in est.cases(scn, ctx):
        key = tuple(params)
        if key not in kernels:
            logs = []
            for x in ref.kernel_probs(p, params):
                d = dict((m, 0.0) for m in p.mix_order)
                for r, (i, a) in enumerate(p.rows):
                    if p.choice[r]:
                        d[p.mix[i]] += math.log(x[r].real)
                logs.append([d[m] for m in p.mix_order])
            kernels[key] = logs
        logs = kernels[key]
        R = len(logs)
        want = pinned = 0.0
        for u in range(len(p.mix_order)):
            ls = [row[u] for row in logs]
            top = max(ls)
            wt = 1.0 if w is None else w[u]
            want += wt * (top + math.log(sum(math.exp(x - top)
                                             for x in ls) / R))
            pinned += wt * math.log(sum((math.exp(x) or 1e-300)
                                        for x in ls) / R)
        if ridge is not None:
            pen = ridge * sum(abs(x) ** 2
                              for x in ref.penalty_params(p, params))
            want, pinned = want - pen, pinned - pen
        got = float(ctx.call(e.convenience_calc_log_likelihood,
                             np.array(params)))
        ctx.see(got)
        if np.isclose(got, want, rtol=1e-7):
            ctx.close(got, want, 'log-likelihood', rtol=1e-7)
        else:
            ctx.close(got, pinned, 'log-likelihood of a very long panel: '
                      'neither right (%r) nor the known value' % want,
                      rtol=1e-6)
            ctx.finding('mixed-sequence-underflow', 'sequence probabilities '
                        'that underflow are replaced by 1e-300')


FAMILIES = [
    Family('small', lambda t: est.gen_small(t), run, est.BOUNDS['small'], 20),
    Family('options', est.gen_options, run, est.BOUNDS['options'], 20),
    Family('mixing-units', est.gen_mixing, run, est.BOUNDS['mixing'], 20),
    Family('medium', est.gen_medium, run, est.BOUNDS['medium'], 10),
    Family('panels', est.gen_panels, run, est.BOUNDS['panels'], 2),
    Family('underflow', gen_underflow, run_underflow,
           'mixed logit panels of 280, 640 and 1000 choice situations in 1 '
           'or 2 units, so that sequence probabilities underflow', 2),
    Family('steep', est.gen_steep, run, est.BOUNDS['steep'], 5),
    Family('large', est.gen_large, run, est.BOUNDS['large'], 5),
    Family('weights', est.gen_weights, run, est.BOUNDS['weights'], 10),
    Family('dtypes', est.gen_dtypes, run, est.BOUNDS['dtypes'], 10),
    Family('edge', est.gen_edge, run, est.BOUNDS['edge'], 10),
    Family('reported', gen_reported, run_reported,
           'fit_mle without iterations on 2 medium datasets x every model '
           'type x weights/ridge', 5),
]
ASSUMPTIONS = [
    'weights are constant within an observation (mixing unit for mixed logit)',
    'parameter vectors from a fixed palette with unclipped utilities',
    'nest parameters are penalised on their natural scale by their distance '
    'from one (as documented in calc_nested_log_likelihood)',
]
