"""C14: estimation keeps fixed parameters and finds a stationary point."""
from itertools import combinations

import numpy as np

import est
import gen
import ref
from core import Family
from gen import Prob, configs, patterns
from checks.c06 import medium, med_configs, mixids, seed_draws

METHODS = {'BFGS': 1e-4, 'L-BFGS-B': 5e-2, 'CG': 1e-4, 'Newton-CG': 5e-2,
           'TNC': 5e-2, 'trust-ncg': 1e-4, 'dogleg': 1e-4,
           'trust-exact': 1e-4, 'trust-krylov': 1e-4, 'SLSQP': 1e-1}

# SLSQP (rounding in its factorisation) and trust-exact (its hard case adds a
# multiple of an eigenvector) move every coordinate whatever the objective;
# the property does not speak about fixed parameters with them.
SLACK = {'SLSQP': 1e-9, 'trust-exact': 1.0}


def run(scn, ctx):
    p = Prob(scn)
    kw, draws = {}, None
    if p.type == 'Mixed Logit':
        kw = dict(num_draws=p.cfg['draws'], seed=17)
        draws = seed_draws(p, 17)
    w = est.weight_menu(p.nunits())[scn['w']]
    ridge, con, method = scn['ridge'], scn['con'], scn['method']
    fixed = set(con or [])
    if p.type == 'Nested Logit':
        fixed |= set(k for k, nest in enumerate(p.cfg['nests'])
                     if len(nest) == 1)
    solutions = []
    for start in scn['starts']:
        init = p.params(start)
        kw2 = dict(print_res=False, ridge=ridge, constrained_pos=con,
                   weights=p.row_weights(w), method=method,
                   loss_tol=1e-8, gradient_tol=1e-6,
                   maxiter=scn.get('maxiter', 1000), **kw)
        what = '%s %s fixed %s start %s' % (p.cfg, method, sorted(fixed),
                                            start)
        model = ctx.call(p.model)
        r = ctx.call(model.fit_mle, np.array(init), just_point=True, **kw2)
        x = [float(v) for v in r['x']]
        ctx.check(not hasattr(model, 'params'), 'just_point stored results')
        results = [(x, -float(r['fun']), bool(r['success']), None)]
        if scn.get('full'):
            m2 = ctx.call(p.model)
            ctx.call(m2.fit_mle, np.array(init), **kw2)
            results.append(([float(v) for v in m2.params.values],
                            float(m2.log_likelihood),
                            bool(m2.estimation_success),
                            [float(v) for v in m2.gradient.values]))
        lo = ref.loglik(p, init, w, ridge, draws).real
        for x, ll, ok, g in results:
            for k in sorted(fixed):
                ctx.check(abs(x[k] - init[k]) <= SLACK.get(method, 0.0), 'fixed parameter %d moved, %s' %
                          (k, what), x, init)
            if not est.usable(p, x):
                continue
            hi = ref.loglik(p, x, w, ridge, draws).real
            ctx.close(ll, hi, 'final log-likelihood is not that of the '
                      'final parameters, ' + what, rtol=1e-7, atol=1e-7)
            ctx.check(hi >= lo - 1e-9 * (1 + abs(lo)), 'log-likelihood '
                      'below that of the initial values, ' + what, hi, lo)
            ctx.see(round(hi, 4))
            if est.at_kink(p, x):
                continue
            gr = ref.grad(p, x, w, ridge, draws)
            if g is not None:
                ctx.close(g, gr, 'reported gradient ' + what, rtol=1e-5,
                          atol=1e-5)
            free = [abs(v) for k, v in enumerate(gr) if k not in fixed]
            if ok and free and not collapsed(p, x):
                ctx.check(max(free) <= METHODS[method], 'success reported '
                          'but not stationary, ' + what, gr)
                solutions.append((start, x))
            if not free:
                ctx.check(x == init, 'all parameters fixed, ' + what, x)
            elif max(abs(v) for v in ref.grad(p, init, w, ridge,
                                              draws)) > 1e-1 and \
                    scn.get('moves'):
                ctx.check(hi > lo, 'no improvement from a point that is not '
                          'stationary, ' + what, hi, lo)
    if p.type == 'MNL' and not fixed and len(solutions) > 1:
        for s, x in solutions[1:]:
            ctx.close(x, solutions[0][1], 'estimates depend on the starting '
                      'values, %s' % method, rtol=1e-2, atol=2e-2)
    if p.type == 'MNL' and not fixed and scn.get('moves'):
        # the optimum found by Newton steps on the reference model
        opt = newton(p, w, ridge)
        for s, x in solutions:
            ctx.close(x, opt, 'estimates differ from the optimum of the '
                      'reference model, %s' % method, rtol=1e-2, atol=2e-2)


def collapsed(p, x):
    """A nest scale close to zero: derivatives are of the order 1/scale and
    the function-based stopping rules of scipy accept them."""
    return any(v < -3.5 for v in x[:p.sizes()[0]])


def newton(p, w, ridge):
    x = [0.0] * p.nparams()
    for _ in range(60):
        g = ref.grad(p, x, w, ridge)
        inv = ref.inverse([[-v for v in r] for r in
                           ref.hessian(p, x, w, ridge)])
        step = [sum(a * b for a, b in zip(row, g)) for row in inv]
        f0, t = ref.loglik(p, x, w, ridge).real, 1.0
        while t > 1e-6:
            y = [a + t * b for a, b in zip(x, step)]
            if ref.loglik(p, y, w, ridge).real >= f0 - 1e-12:
                break
            t /= 2
        x = y
        if max(abs(v) for v in step) < 1e-10:
            break
    return x


def base(cfg, pat, spec='xy', mk='own'):
    return dict(pat=pat, model=cfg, spec=spec, mix=mixids(len(pat), mk))


def ridge_of(cfg):
    return None if cfg['type'] == 'Nested Logit' else 0.7


def gen_fixed(tier):
    """Every subset of fixed parameters, default method."""
    full = tier == 'thorough'
    pat = medium('mix')
    for cfg in med_configs(4):
        s = base(cfg, pat)
        K = Prob(s).nparams()
        for r in range(0, K + 1):
            for con in combinations(range(K), r):
                if not full and K > 5 and 2 < r < K - 1:
                    continue
                yield dict(s, con=list(con), ridge=ridge_of(cfg), w=r % 2,
                           method='BFGS', starts=['a'], moves=0, full=0)


def gen_methods(tier):
    full = tier == 'thorough'
    for kind in ('mix', 'obs30') if full else ('mix',):
        pat = medium(kind)
        J = max(max(s) for s, _ in pat) + 1
        for cfg in med_configs(J):
            s = base(cfg, pat)
            p = Prob(s)
            K = p.nparams()
            n = p.sizes()[0]
            cons = [None, [0], [K - 1], [K - 1, 1]]
            if n:
                cons = [list(range(n)), [0], [n, 0], [n + 1, 1]]
            for method in METHODS:
                for con in cons:
                    if method in ('dogleg', 'trust-exact', 'trust-krylov',
                                  'trust-ncg') and p.type in \
                            ('Nested Logit', 'Mixed Logit') and not full:
                        continue
                    yield dict(s, con=con, ridge=ridge_of(cfg), w=0,
                               maxiter=60 if n else 300,
                               method=method, starts=['zero', 'a', 'd']
                               if full else ['zero', 'd'], moves=1,
                               full=int(method in ('BFGS', 'Newton-CG') and
                                        ridge_of(cfg) is not None))


def gen_small(tier):
    """Every pattern with n<=2 (J=2) and every configuration."""
    for n in (1, 2):
        for pat in patterns(2, n, ordered=False):
            for cfg in configs(2, est.MIXSMALL):
                if cfg['type'] == 'Nested Logit':
                    continue
                for con in (None, [0]):
                    yield dict(base(cfg, pat), con=con, ridge=2.0, w=1,
                               method='BFGS', starts=['a', 'c'], moves=1,
                               full=1)


def gen_nests(tier):
    """Degenerate nests stay at their initial values for every partition."""
    pat = [[[0, 1, 2], 0], [[1, 2], 2], [[0, 2, 1], 1], [[0, 1], 1],
           [[2, 0, 1], 2], [[1, 0, 2], 0], [[2, 1], 1], [[0, 2], 0]]
    for part in gen.ordered_partitions(range(3)):
        cfg = {'type': 'Nested Logit', 'nests': part}
        s = base(cfg, pat)
        K = Prob(s).nparams()
        for con in [None] + [[k] for k in range(K)] + [[K - 1, 0]]:
            for method in ('BFGS', 'Newton-CG', 'L-BFGS-B'):
                yield dict(s, con=con, ridge=None, w=1, method=method,
                           starts=['a', 'd'], moves=0, full=0, maxiter=12)


def run_tolerances(scn, ctx):
    """gradient_tol bounds the gradient on success whatever loss_tol is, and
    no more than maxiter iterations are made."""
    p = Prob(scn)
    kw, draws = {}, None
    if p.type == 'Mixed Logit':
        kw = dict(num_draws=p.cfg['draws'], seed=17)
        draws = seed_draws(p, 17)
    ridge = scn['ridge']
    con = list(range(p.sizes()[0]))
    what = '%s %s' % (p.cfg, scn['method'])
    init = np.array(p.params('d'))
    for gtol, ltol in ((1e-6, 0.3), (1e-6, 1e-6), (0.3, 1e-9)):
        model = ctx.call(p.model)
        r = ctx.call(model.fit_mle, init.copy(), just_point=True, ridge=ridge,
                     constrained_pos=con, method=scn['method'],
                     print_res=False, gradient_tol=gtol, loss_tol=ltol,
                     maxiter=500, **kw)
        x = [float(v) for v in r['x']]
        if not r['success'] or not est.usable(p, x) or est.at_kink(p, x):
            continue
        g = max(abs(v) for k, v in enumerate(ref.grad(p, x, None, ridge,
                                                      draws))
                if k not in con)
        ctx.check(g <= 1.5 * gtol + 1e-7, 'success reported with a '
                  'gradient above gradient_tol, ' + what, g, gtol, ltol)
        ctx.see(g)
    last = None
    for it in (0, 1, 2, 3):
        model = ctx.call(p.model)
        r = ctx.call(model.fit_mle, init.copy(), just_point=True, ridge=ridge,
                     constrained_pos=con, method=scn['method'],
                     print_res=False, maxiter=it, **kw)
        ctx.check(int(r['nit']) <= it, 'more than maxiter iterations, ' +
                  what, r['nit'], it)
        ll = -float(r['fun'])
        ctx.check(last is None or ll >= last - 1e-9, 'a further iteration '
                  'made the log-likelihood worse, ' + what, ll, last)
        last = ll
        if it == 0:
            ctx.close(r['x'], init, 'no iteration, but other estimates',
                      rtol=0, atol=0)


def gen_tolerances(tier):
    for kind in ('mix', 'obs30'):
        pat = medium(kind)
        J = max(max(s) for s, _ in pat) + 1
        for cfg in med_configs(J):
            for method in ('BFGS', 'CG'):
                yield dict(base(cfg, pat), ridge=ridge_of(cfg),
                           method=method)


def run_blocks(scn, ctx):
    """Starting values given block by block mean the same as in one array."""
    p = Prob(scn)
    n, s, c, b, g = p.sizes()
    what = str(p.cfg)
    for par in scn['pars']:
        init = p.params(par)
        blocks = dict(init_coefs=np.array(init[s + c:]))
        if s:
            blocks['init_shapes'] = np.array(init[:s])
        if c:
            blocks['init_intercepts'] = np.array(init[s:s + c])
        opts = dict(print_res=False, ridge=scn['ridge'],
                    constrained_pos=scn['con'])
        for it in (0, 3):
            one = ctx.call(ctx.call(p.model).fit_mle, np.array(init),
                           maxiter=it, just_point=True, **opts)
            two = ctx.call(ctx.call(p.model).fit_mle, None, maxiter=it,
                           just_point=True, **dict(opts, **blocks))
            ctx.close(two['x'], one['x'], 'starting values given in blocks '
                      'lead to other estimates, ' + what, rtol=1e-9)
            if it == 0:
                ctx.close(two['x'], init, 'no iteration, but not the '
                          'starting values given in blocks, ' + what,
                          rtol=0, atol=0)
            ctx.see(two['x'])
        m = ctx.call(p.model)
        ctx.call(m.fit_mle, None, maxiter=0, **dict(opts, **blocks))
        ctx.close(m.coefs.values, init[s + c:], 'coefficients, ' + what)
        if s:
            ctx.close(m.shapes.values, init[:s], 'shapes, ' + what)
        if c:
            ctx.close(m.intercepts.values, init[s:s + c], 'intercepts, ' +
                      what)


def gen_blocks(tier):
    for kind in ('mix', 'obs30', 'alts6'):
        pat = medium(kind)
        J = max(max(s) for s, _ in pat) + 1
        for t, refs in (('Asym', [(r, i) for r in range(J)
                                  for i in [None, (r + 1) % J]]),
                        ('Scobit', [(None, None), (None, 0), (None, J - 1)]),
                        ('Uneven', [(None, None), (None, 1)]),
                        ('Cloglog', [(None, None), (None, 2)])):
            for sref, iref in refs:
                cfg = {'type': t, 'iref': iref}
                if t == 'Asym':
                    cfg['sref'] = sref
                for spec in ('xy', 'xd'):
                    for con in (None, [0], [0, 2]):
                        if t == 'Cloglog' and spec == 'xy' and \
                                iref is None and con == [0, 2]:
                            continue        # only two parameters
                        yield dict(base(cfg, pat, spec), con=con, ridge=0.1,
                                   pars=['a', 'd'] if tier == 'quick' else
                                   ['a', 'b', 'c', 'd'])


def run_start(scn, ctx):
    """Starting values of any size are taken as they are."""
    p = Prob(scn)
    kw = dict(num_draws=2, seed=17) if p.type == 'Mixed Logit' else {}
    n = p.sizes()[0]
    base_ = p.params('a')
    for scale in (1e-9, 1e-3, 7.0, 60.0, 300.0, 1500.0):
        for con in (None, [0], [len(base_) - 1]):
            init = np.array([x if k < n else x * scale
                             for k, x in enumerate(base_)])
            r = ctx.call(ctx.call(p.model).fit_mle, init.copy(), maxiter=0,
                         just_point=True, print_res=False,
                         constrained_pos=con, **kw)
            ctx.close(r['x'], init, 'no iteration, but other estimates than '
                      'the starting values, %s' % p.cfg, rtol=0, atol=0)
            ctx.see(r['x'])


def gen_start(tier):
    for kind in ('mix', 'obs30'):
        pat = medium(kind)
        J = max(max(s) for s, _ in pat) + 1
        for cfg in med_configs(J):
            for spec in ('xy', 'xd'):
                if spec == 'xy' or cfg['type'] != 'Mixed Logit':
                    yield base(cfg, pat, spec)


FAMILIES = [
    Family('start-sizes', gen_start, run_start,
           '2 datasets x 12 configurations x 2 specifications x starting '
           'values of 6 orders of magnitude x fixed or not', 4),
    Family('fixed-subsets', gen_fixed, run,
           'every subset of fixed parameters (quick, K>5: sizes 0,1,2,K-1,K) '
           'x 12 configurations, BFGS', 20),
    Family('methods', gen_methods, run,
           '10 optimisation methods x 12 configurations x 4 sets of fixed '
           'parameters x 2-3 starting points', 20),
    Family('small', gen_small, run,
           'every unordered J=2, n<=2 pattern x every configuration', 20),
    Family('nests', gen_nests, run,
           'every ordered partition of 3 alternatives into nests x every '
           'single fixed parameter x 3 methods x 2 starts', 10),
    Family('start-blocks', gen_blocks, run_blocks,
           'models with shapes or outside intercepts x references x 2 specs '
           'x 3 sets of fixed parameters x starting values given in blocks '
           'and in one array', 20),
    Family('tolerances', gen_tolerances, run_tolerances,
           '2 datasets x 12 configurations x BFGS, CG x 3 pairs of '
           'tolerances and maxiter 0-3', 5),
]
ASSUMPTIONS = [
    'stationarity tolerance depends on the stopping rule of the scipy method',
    'starting-value independence is asserted for the globally concave case '
    '(ridge penalised multinomial logit)',
    'nested logit is estimated without ridge because of the known '
    'nested-ridge-gradient finding of C09',
]
