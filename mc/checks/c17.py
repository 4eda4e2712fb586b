"""C17: mixed logit simulates with shared, reproducible draws per unit."""
import math
from itertools import permutations, product, combinations

import numpy as np
from scipy.sparse import csr_matrix

import est
import gen
import ref
from core import Family
from gen import Prob, _POOL
from checks.c06 import medium, mixids, seed_draws, predict


# ------------------------------------------------------------------- draws
def run_draws(scn, ctx):
    """get_normal_draws: one array per variable, units x draws, independent
    standard normal values, reproducible by seed."""
    from pylogit import mixed_logit_calcs as mlc
    U, R, V, seed = scn['U'], scn['R'], scn['V'], scn['seed']
    a = ctx.call(mlc.get_normal_draws, U, R, V, seed=seed)
    ctx.eq(len(a), V, 'one array of draws per random coefficient')
    for x in a:
        ctx.eq(tuple(x.shape), (U, R), 'draws per unit')
    flat = [round(float(z), 12) for x in a for z in x.ravel()]
    ctx.check(all(math.isfinite(z) for z in flat), 'draws are finite')
    ctx.check(len(set(flat)) == len(flat), 'the draws of different units, '
              'draws or coefficients coincide', flat[:20])
    np.random.seed(999)
    np.random.rand(scn['noise'])
    b = ctx.call(mlc.get_normal_draws, U, R, V, seed=seed)
    ctx.check(all(np.array_equal(x, y) for x, y in zip(a, b)),
              'same seed, different draws')
    c = ctx.call(mlc.get_normal_draws, U, R, V, seed=seed + 1)
    ctx.check(not any(np.array_equal(x, y) for x, y in zip(a, c)),
              'different seeds give the same draws')
    if len(flat) >= 4000:
        m = sum(flat) / len(flat)
        v = sum((z - m) ** 2 for z in flat) / len(flat)
        ctx.check(abs(m) < 0.1 and abs(v - 1) < 0.12, 'draws are not '
                  'standard normal', m, v)
        inside = sum(1 for z in flat if abs(z) < 1) / float(len(flat))
        ctx.check(abs(inside - 0.6827) < 0.04, 'draws are not standard '
                  'normal', inside)
    # without a seed the caller's generator decides
    np.random.seed(5)
    d = ctx.call(mlc.get_normal_draws, U, R, V)
    e = ctx.call(mlc.get_normal_draws, U, R, V)
    ctx.check(not np.array_equal(d[0], e[0]), 'unseeded draws repeat')
    ctx.see(a[0])


def gen_draws(tier):
    for U, R, V in product((1, 2, 3, 7), (1, 2, 3, 10), (1, 2, 3)):
        for seed in (1, 17, 2 ** 31 - 1):
            yield dict(U=U, R=R, V=V, seed=seed, noise=U + R)
    for U, R, V in ((2, 2000, 1), (2000, 1, 2), (40, 50, 2)):
        for seed in (1, 17, 4711):
            yield dict(U=U, R=R, V=V, seed=seed, noise=3)


# ---------------------------------------------------------- expanded design
def run_design(scn, ctx):
    from pylogit import mixed_logit_calcs as mlc
    p = Prob(scn)
    model = ctx.call(p.model)
    maps = model.get_mappings_for_fit()
    draws = p.draws()
    d3 = ctx.call(mlc.create_expanded_design_for_mixing, model.design,
                  [np.array(x) for x in draws], model.mixing_pos,
                  maps['rows_to_mixers'])
    X = p.design()
    R = p.cfg['draws']
    unit = dict((m, k) for k, m in enumerate(p.mix_order))
    mpos = p.mixing_positions()
    want = []
    for r, (i, a) in enumerate(p.rows):
        u = unit[p.mix[i]]
        want.append([X[r] + [X[r][q] * draws[k][u][d]
                             for k, q in enumerate(mpos)]
                     for d in range(R)])
    ctx.close(d3, want, 'expanded design', rtol=1e-12, atol=1e-12)
    from pylogit import choice_calcs as cc
    obs = [p.ids[i] for i, a in p.rows]
    e = p.estimator(model) if obs == sorted(obs) else None
    args = (d3, model.alt_IDs, maps['rows_to_obs'], maps['rows_to_alts'])
    # estimation with arbitrary rows: likelihood, probabilities, sequences
    for which in ('a', 'c'):
        params = p.params(which)
        k = ref.kernel_probs(p, params)
        long_want = [[k[d][r].real for d in range(R)]
                     for r in range(len(p.rows))]
        lg = ctx.call(cc.calc_probabilities, np.array(params), *(
            args + (model.utility_transform,)), return_long_probs=True)
        if e is not None:
            ch, lg2 = ctx.call(e.convenience_calc_probs, np.array(params))
            ctx.close(lg2, lg, 'estimation probabilities')
        ctx.close(lg, long_want, 'conditional probabilities', rtol=1e-8,
                  atol=1e-12)
        seq = []
        for m in p.mix_order:
            row = []
            for d in range(R):
                x = 1.0
                for r, (i, a) in enumerate(p.rows):
                    if p.mix[i] == m and p.choice[r]:
                        x *= k[d][r].real
                row.append(x)
            seq.append(row)
        got = ctx.call(mlc.calc_choice_sequence_probs, lg,
                       np.array(p.choice, dtype=float),
                       maps['rows_to_mixers'], return_type='all')
        ctx.close(got[1], seq, 'sequence probabilities per draw', rtol=1e-8,
                  atol=1e-14)
        ctx.close(got[0], [sum(x) / R for x in seq], 'sequence '
                  'probabilities', rtol=1e-8, atol=1e-14)
        got1 = ctx.call(mlc.calc_choice_sequence_probs, lg,
                        np.array(p.choice, dtype=float),
                        maps['rows_to_mixers'])
        ctx.close(got1, got[0], 'sequence probabilities alone')
        ll = ctx.call(
            mlc.calc_mixed_log_likelihood, np.array(params), *(
                args + (maps['rows_to_mixers'],
                        np.array(p.choice, dtype=float),
                        model.utility_transform)))
        if e is not None:
            ctx.close(float(e.convenience_calc_log_likelihood(
                np.array(params))), float(ll), 'estimation log-likelihood')
        ctx.close(float(ll), sum(math.log(sum(x) / R) for x in seq),
                  'simulated log-likelihood', rtol=1e-8)
        ctx.see(ll)


def shapes_of(pat):
    return sum(len(s) for s, c in pat)


def gen_design(tier):
    pats = [[[[0, 1], 0], [[1, 0], 1], [[0, 1], 1]],
            [[[0, 1, 2], 2], [[2, 1], 1], [[0, 2], 0]],
            [[[0, 1], 0], [[0, 1], 1], [[1, 0], 1], [[0], 0]]]
    mixes = [['b_x'], ['b_y'], ['b_y', 'b_x'], ['b_x', 'b_y']]
    for pat in pats:
        for mix in est.partitions_of_obs(len(pat)):
            for order in (None, 'rev', 'alt', 'twist'):
                for m, R, vals in ((0, 1, 'real'), (1, 2, 'int'),
                                   (2, 3, 'real'), (3, 2, 'zero'),
                                   (2, 1, 'int')):
                    yield dict(pat=pat, mix=mix, spec='xy', order=order,
                               vals=vals,
                               model={'type': 'Mixed Logit',
                                      'mixing': mixes[m], 'draws': R})
    # every row permutation of two observations in one or two units
    pat = [[[0, 1, 2], 1], [[2, 0], 2]]
    n = shapes_of(pat)
    for mix in ([4, 4], [4, 2], [2, 4]):
        for o in permutations(range(n)):
            yield dict(pat=pat, mix=mix, spec='yx', order=list(o),
                       model={'type': 'Mixed Logit', 'mixing': ['b_x'],
                              'draws': 2})
    # random coefficients in a larger specification
    spec = [['intercept', [0, 2]], ['x', [[0, 1], 2]], ['y', 'all_diff'],
            ['z', 'all_same']]
    names = Prob(dict(pat=pats[1], spec_list=spec)).coef_names()
    for size in (1, 2, 3):
        for m in (permutations(names, size) if size < 3 else
                  combinations(names, size)):
            for vals in ('real', 'int'):
                yield dict(pat=pats[1], mix=[5, 5, 1], spec_list=spec,
                           vals=vals, model={'type': 'Mixed Logit',
                                             'mixing': list(m), 'draws': 2})


# ------------------------------------------- fitted models and predictions
def run_fit(scn, ctx):
    """Estimates, fitted values and predictions use the seed's draws, by unit
    in order of first appearance, for any number of draws."""
    p = Prob(scn)
    R, seed = p.cfg['draws'], scn['seed']
    params = p.params(scn['par'])
    # with few units the BHHH matrix is singular and only the point estimate
    # is available
    full = len(p.mix_order) > p.nparams() + 1
    results = []
    draws = seed_draws(p, seed)
    want_ll = ref.loglik(p, params, draws=draws).real
    k = ref.kernel_probs(p, params, draws)
    want = [[k[d][r].real for d in range(R)] for r in range(len(p.rows))]
    for rep in range(2):
        np.random.seed(rep)
        model = ctx.call(p.model)
        r = ctx.call(model.fit_mle, np.array(params), num_draws=R, seed=seed,
                     maxiter=0, print_res=False, just_point=not full)
        ll = model.log_likelihood if full else -float(r['fun'])
        ctx.close(ll, want_ll, 'log-likelihood of the fitted model',
                  rtol=1e-8)
        if full:
            ctx.close(model.long_fitted_probs, want,
                      'fitted probabilities per draw', rtol=1e-8)
        results.append(ll)
    ctx.check(results[0] == results[1], 'same seed, other log-likelihood')
    mean = [sum(x) / R for x in want]
    given = {} if full else dict(param_list=p.param_list(params))
    got = ctx.call(model.predict, p.df(), num_draws=R, seed=seed, **given)
    ctx.close(got, mean, 'predictions for the estimation data', rtol=1e-8)
    again = ctx.call(model.predict, p.df(), num_draws=R, seed=seed, **given)
    ctx.check(np.array_equal(got, again), 'same seed, other predictions')
    # predictions for other data and any number of draws
    q = Prob(dict(scn, pat=scn['new'], mix=scn['newmix'],
                  valid=[5, 3, 8, 1][:len(scn['new'])],
                  order=scn.get('neworder')))
    for R2 in (1, 2, 4):
        q.cfg = dict(p.cfg, draws=R2)
        for s2 in (3, 17):
            d = seed_draws(q, s2)
            w = ref.real(ref.probs(q, params, d))
            g = ctx.call(model.predict, q.df(), num_draws=R2, seed=s2,
                         **given)
            ctx.close(g, w, 'predictions with %d draws' % R2, rtol=1e-8)
            ch = ctx.call(model.predict, q.df(), num_draws=R2, seed=s2,
                          return_long_probs=False, choice_col=gen.CH,
                          **given)
            ctx.close(ch, [sum(w[r] for r, (o, a) in enumerate(q.rows)
                               if o == i and q.choice[r])
                           for i in q.obs_order], 'chosen', rtol=1e-8)
    # zero spread: multinomial logit
    nb = len(p.kinds())
    flat = list(params[:nb]) + [0.0] * (len(params) - nb)
    mnl = Prob(dict(scn, model={'type': 'MNL'}))
    mm = mnl.model()
    e0, e1 = p.estimator(p.model()), mnl.estimator(mm)
    x0, x1 = np.array(flat), np.array(params[:nb])
    r0 = ctx.call(p.model().fit_mle, x0, num_draws=R, seed=seed, maxiter=0,
                  print_res=False, just_point=True)
    r1 = ctx.call(mm.fit_mle, x1, maxiter=0, print_res=False,
                  just_point=True)
    ctx.close(float(r0['fun']), float(r1['fun']), 'zero spread '
              'log-likelihood')
    ctx.close(e0.convenience_calc_log_likelihood(x0),
              e1.convenience_calc_log_likelihood(x1), 'zero spread')
    ctx.close(np.ravel(e0.convenience_calc_gradient(x0))[:nb],
              np.ravel(e1.convenience_calc_gradient(x1)),
              'zero spread gradient')
    g0 = ctx.call(p.model().predict, p.df(), num_draws=R, seed=seed,
                  param_list=p.param_list(flat))
    g1 = ctx.call(mm.predict, mnl.df(),
                  param_list=mnl.param_list(params[:nb]))
    ctx.close(g0, g1, 'zero spread predictions')
    ctx.see(results, got)


def gen_fit(tier):
    mixes = [['b_x'], ['b_y', 'b_x'], ['b_x', 'b_y']]
    pats = [[[[0, 1, 2], 2], [[2, 1], 1], [[0, 2, 1], 0]],
            [[[0, 1], 0], [[1, 0], 1], [[0, 1], 1]]]
    for pat in pats:
        J = max(max(s) for s, _ in pat) + 1
        new = [[list(range(J)), 0], [list(range(J))[::-1], 1],
               [list(range(J)), 1]]
        for mix in est.partitions_of_obs(3):
            for m in mixes:
                for R in (1, 2, 5):
                    for newmix, neworder in (([6, 6, 6], None),
                                             ([8, 1, 8], 'rev'),
                                             ([9, 7, 2], 'twist')):
                        yield dict(pat=pat, mix=mix, spec='xy', new=new,
                                   newmix=newmix, neworder=neworder,
                                   seed=17 if R != 2 else 1,
                                   par='a' if R != 5 else 'd',
                                   model={'type': 'Mixed Logit',
                                          'mixing': m, 'draws': R})
    for kind in ('alts6', 'mix', 'obs30', 'obs300'):
        pat = medium(kind)
        J = max(max(s) for s, _ in pat) + 1
        for mk in ('own', 'panel', 'alternate', 'one'):
            for R in (1, 3) if kind != 'mix' else (1, 3, 130, 300, 1100):
                if kind == 'obs300' and mk == 'one' or R > 300 and \
                        mk != 'panel':
                    continue
                yield dict(pat=pat, mix=mixids(len(pat), mk), spec='xy',
                           new=[[list(range(J)), 0], [list(range(J)), 1]],
                           newmix=[3, 1], seed=23, par='d',
                           model={'type': 'Mixed Logit',
                                  'mixing': ['b_y', 'b_x'], 'draws': R})


# ------------------------------------------------------------- optimisation
def run_repeat(scn, ctx):
    """A complete estimation is reproduced by the same seed."""
    p = Prob(scn)
    out = []
    for rep in range(3):
        np.random.seed(rep + 40)
        m = p.model()
        kw = dict(num_draws=p.cfg['draws'], print_res=False, maxiter=15,
                  ridge=0.3)
        seed = scn['seed'] + (rep == 2)
        if rep == 1:
            r = ctx.call(m.fit_mle, np.array(p.params('d')), seed=seed,
                         just_point=True, **kw)
            out.append(np.array(r['x']))
        else:
            ctx.call(m.fit_mle, np.array(p.params('d')), seed=seed, **kw)
            out.append(m.params.values.copy())
    ctx.check(np.array_equal(out[0], out[1]), 'same seed, different '
              'estimates', out)
    ctx.check(not np.array_equal(out[0], out[2]), 'another seed does not '
              'change the estimates', out)
    ctx.see(out[0])


def gen_repeat(tier):
    pat = medium('mix')
    for mk in ('own', 'panel', 'alternate'):
        for m in (['b_x'], ['b_y', 'b_x']):
            for R in (1, 2, 5):
                for seed in (1, 9):
                    yield dict(pat=pat, mix=mixids(len(pat), mk), spec='xy',
                               seed=seed, model={'type': 'Mixed Logit',
                                                 'mixing': m, 'draws': R})


FAMILIES = [
    Family('draws', gen_draws, run_draws,
           'units 1-7 x draws 1-10 x coefficients 1-3 x seeds, and larger '
           'arrays for the distribution', 10),
    Family('design', gen_design, run_design,
           'every assignment of 3-4 observations to units x 4 row orders x '
           'random coefficient lists, draws 1-3, value tables; every row '
           'permutation of 5 rows; every ordered pair and every triple of 8 '
           'coefficients', 50),
    Family('fit-predict', gen_fit, run_fit,
           'every assignment of 3 observations to units x 3 coefficient '
           'lists x 1/2/5 draws x 3 prediction datasets x 1/2/4 draws x 2 '
           'seeds; larger datasets', 50),
    Family('repeat', gen_repeat, run_repeat,
           'complete estimations, 3 panel layouts x draws 1/2/5', 10),
]
ASSUMPTIONS = ['draw values used in the exact comparisons come from '
               'get_normal_draws for the given seed; their independence and '
               'distribution are checked separately in family draws']
