"""C20: bootstrap and jackknife replicates are refits of resampled data."""
import math
from itertools import product

import numpy as np
import pandas as pd

import boot
import est
import gen
import ref
from core import Family
from gen import Prob
from checks.c06 import medium, med_configs

OPTS = {
    'plain': dict(maxiter=3),
    'ridge': dict(maxiter=3, ridge=0.7),
    'fixed': dict(maxiter=3, constrained_pos=[-1]),
    'fixed0': dict(maxiter=2, constrained_pos=[0], ridge=0.3),
    'tol': dict(maxiter=40, gradient_tol=0.5),
    'cg': dict(maxiter=2, method='CG'),
    'lbfgs': dict(maxiter=2, method='L-BFGS-B', ridge=0.2),
    'ltol': dict(maxiter=60, method='L-BFGS-B', loss_tol=0.05),
}


def options(p, name):
    o = dict(OPTS[name])
    if 'constrained_pos' in o:
        o['constrained_pos'] = [k % p.nparams() for k in
                                o['constrained_pos']]
    if p.type == 'Nested Logit':
        o.pop('ridge', None)
    return o


def sub(p, keep):
    """The dataset made of the observations `keep`, in that order."""
    d = dict(p.d)
    ident = d.get('valid') or list(range(p.n))
    d.update(pat=[p.pat[i] for i in keep], valid=[ident[i] for i in keep],
             ids=list(range(1, len(keep) + 1)))
    return Prob(d)


def starting_values(p, q, mnl_init, mnl_kw):
    """Documented default: multinomial logit estimates of the same sample,
    zeros for everything the multinomial logit does not have; the asymmetric
    model's index coefficients are divided by log(number of alternatives)."""
    n, s, c, b, g = p.sizes()
    m = boot.mnl_for(q, q.df())
    kw = dict(method='BFGS')
    kw.update(mnl_kw)
    kw.update(just_point=True)
    r = m.fit_mle(np.array(mnl_init), **kw)
    x = [float(v) for v in r['x']]
    if p.cfg.get('iref') is not None:
        ic, be = x[:c], x[c:]
    else:
        ic, be = [], x
    if p.type == 'Asym':
        be = [v / math.log(p.J) for v in be]
    return [0.0] * (n + s) + ic + be, x


def refit(p, q, w, opts, mnl_init, mnl_kw, custom=None):
    o = dict(method='BFGS', print_res=False, just_point=True)
    o.update(opts)
    if w is not None:
        o['weights'] = q.row_weights(w)
    if p.type == 'MNL':
        if mnl_kw is not None:          # explicit options for the MNL win
            o = dict(dict(method='BFGS', just_point=True), **mnl_kw)
        init = np.zeros(p.nparams()) if mnl_init is None else mnl_init
        return q.model().fit_mle(np.array(init), **o)['x']
    init, x = starting_values(p, q, mnl_init, mnl_kw)
    if custom:
        init = custom(x, p)
    return q.model().fit_mle(np.array(init), **o)['x']


def custom_init(x, p):
    return [0.1 * (k + 1) for k in range(p.nparams() - 1)] + [x[-1]]


def run(scn, ctx):
    from pylogit import bootstrap, bootstrap_sampler as bs
    p = Prob(scn)
    model = ctx.call(p.model)
    mle = np.array(p.params('d'))
    b = ctx.call(bootstrap.Boot, model, mle)
    ctx.eq(b.mle_params.index.tolist(), p.param_names(), 'labels')
    ctx.close(b.mle_params.values, mle, 'mle_params')
    opts = options(p, scn['opts'])
    w = est.weight_menu(p.n)[1] if scn.get('w') else None
    kw = dict(opts)
    mnl_init = mnl_kw = None
    custom = None
    if p.type != 'MNL' or scn.get('mnl'):
        size = boot.mnl_size(p)
        mnl_init = [0.05 * (k - 1) for k in range(size)]
        mnl_kw = dict(print_res=False, maxiter=2, ridge=0.4)
        kw.update(mnl_obj=boot.mnl_for(p, p.df()),
                  mnl_init_vals=np.array(mnl_init), mnl_fit_kwargs=mnl_kw)
    if scn.get('custom') and p.type != 'MNL':
        seen = []

        def ext(orig, series, num):
            seen.append((orig is model, series.index.tolist(), num))
            return np.array(custom_init([float(v) for v in series.values],
                                        p))
        kw['extract_init_vals'] = ext
        custom = custom_init
    S, seed = scn['S'], scn['seed']
    df = p.df()
    sam = bs.create_cross_sectional_bootstrap_samples(
        df[gen.OBS].values, df[gen.ALT].values, df[gen.CH].values, S,
        seed=seed)
    bkw = dict(kw)
    if w is not None:
        bkw['weights'] = p.row_weights(w)
    where = dict((o, i) for i, o in enumerate(p.ids))
    if 'boot' in scn['what']:
        with boot.quiet():
            ctx.call(b.generate_bootstrap_replicates, S, boot_seed=seed,
                     **bkw)
        rep = b.bootstrap_replicates
        ctx.check(isinstance(rep, pd.DataFrame), 'replicates')
        ctx.eq(rep.columns.tolist(), p.param_names(), 'replicate columns')
        want = []
        for row in sam.tolist():
            keep = [where[int(o)] for o in row]
            q = sub(p, keep)
            want.append(refit(p, q, [w[i] for i in keep] if w else None,
                              opts, mnl_init, mnl_kw, custom).tolist())
        same(ctx, rep.values, want, 'bootstrap replicates, options %s' %
             scn['opts'])
        ctx.check(not (p.n > 6 and len(set(map(tuple, want))) < 2),
                  'all replicates coincide')
        after(ctx, p, b, 'bootstrap', scn)
    if 'jack' in scn['what']:
        with boot.quiet():
            ctx.call(b.generate_jackknife_replicates, **kw)
        rep = b.jackknife_replicates
        ctx.eq(rep.columns.tolist(), p.param_names(), 'replicate columns')
        want = []
        for o in sorted(p.ids[:p.n]):
            keep = [i for i in range(p.n) if p.ids[i] != o]
            q = sub(p, keep)
            want.append(refit(p, q, None, opts, mnl_init, mnl_kw,
                              custom).tolist())
        same(ctx, rep.values, want, 'jackknife replicates, options %s' %
             scn['opts'])
        after(ctx, p, b, 'jackknife', scn)
    if custom:
        for own, idx, num in seen:
            ctx.check(own, 'extract_init_vals gets the original model')
            ctx.eq(num, p.nparams(), 'extract_init_vals: parameters')
    ctx.see(rep.values)


def same(ctx, got, want, msg):
    ctx.close(got, want, msg, rtol=1e-5, atol=1e-6)


def after(ctx, p, b, which, scn):
    """Log-likelihoods and gradient norms of the original data."""
    reps = getattr(b, which + '_replicates').values.tolist()
    with boot.quiet():
        got = ctx.call(b.calc_log_likes_for_replicates, replicates=which)
    usable = [est.usable(p, r, 400) for r in reps]
    if all(usable):
        want = [ref.loglik(p, r).real for r in reps]
        ctx.close(got, want, which + ' log-likelihoods', rtol=1e-7)
    stored = getattr(b, which + '_log_likelihoods')
    ctx.close(stored.values, got, 'stored log-likelihoods')
    w = est.weight_menu(p.n)[1]
    for ridge, wt in ((None, None), (0.7, w)):
        if ridge and p.type == 'Nested Logit':
            ridge = None
        with boot.quiet():
            g = ctx.call(b.calc_gradient_norm_for_replicates,
                         replicates=which, ridge=ridge,
                         weights=None if wt is None else p.row_weights(wt))
        for k, r in enumerate(reps):
            if usable[k] and not est.at_kink(p, r):
                x = ref.grad(p, r, wt, ridge)
                ctx.close(float(g[k]), math.sqrt(sum(v * v for v in x)),
                          '%s gradient norm %d' % (which, k), rtol=1e-6,
                          atol=1e-7)
        ctx.eq(len(g), len(reps), 'number of gradient norms')


def gen_all(tier):
    full = tier == 'thorough'
    pat = medium('mix')
    for cfg in med_configs(4):
        if cfg['type'] == 'Mixed Logit':
            continue
        for k, name in enumerate(sorted(OPTS)):
            for w in (0, 1):
                if not full and w != (k % 2):
                    continue
                yield dict(pat=pat, model=cfg, spec='xy', opts=name, w=w,
                           S=3, seed=5 + k, what=['boot', 'jack'],
                           ids=[2, 3, 5, 8, 13, 21, 34, 35, 36, 40, 41, 99],
                           custom=int(name == 'ridge'),
                           anon=int(k % 3 == 1),
                           mnl=int(name in ('cg', 'ridge')))
        # every observation twice
        yield dict(pat=pat + pat, model=cfg, spec='xy', opts='ridge', w=0,
                   S=2, seed=4, what=['boot', 'jack'],
                   valid=list(range(len(pat))) * 2,
                   ids=list(range(3, 3 + 2 * len(pat))))


def gen_small(tier):
    """Every dataset with 3 binary choice situations (all alternatives chosen
    and always two left after deleting one)."""
    full = tier == 'thorough'
    cfgs = [{'type': 'MNL'}, {'type': 'Cloglog', 'iref': None},
            {'type': 'Nested Logit', 'nests': [[1], [0]]},
            {'type': 'Asym', 'sref': 0, 'iref': 1},
            {'type': 'Scobit', 'iref': 0}, {'type': 'Uneven', 'iref': None}]
    for pat in gen.patterns(2, 3, full_only=True, all_chosen=True):
        for j, cfg in enumerate(cfgs):
            if not full and j > 2 and pat[0][0] == [1, 0]:
                continue
            for ids in ([1, 2, 3], [-5, 0, 7]) if full else ([-5, 0, 7],):
                yield dict(pat=pat, model=cfg, spec='xy', opts='ridge',
                           w=j % 2, S=2, seed=3, what=['boot', 'jack'],
                           ids=ids)


def gen_spec(tier):
    """Labels, intercept columns and grouped coefficients."""
    pat = medium('mix')
    labels = [[-7, 0, 4, 30], [10, 11, 12, 300],
              [20000001, 20000002, 20000003, 20000004]]
    for cfg in med_configs(4):
        if cfg['type'] == 'Mixed Logit':
            continue
        for k, lab in enumerate(labels):
            for spec in ('ixg', 'xd'):
                if cfg.get('iref') is not None and spec == 'ixg':
                    continue
                yield dict(pat=pat, model=cfg, spec=spec, opts='ridge',
                           w=1, S=2, seed=9, alts=lab,
                           what=['boot', 'jack'] if k else ['boot'],
                           anon=int(k == 1),
                           vals='real')


FAMILIES = [
    Family('options', gen_all, run,
           '11 configurations x 8 option sets x weights; every replicate '
           'refitted independently on independently built data; all deleted '
           'observations', 10),
    Family('small', gen_small, run,
           'every set of choices and row orders of 3 binary choice '
           'situations x 6 configurations, all resamples of the seed and all '
           'deletions', 10),
    Family('labels', gen_spec, run,
           '11 configurations x 2 alternative labellings x 2 specifications',
           10),
]
ASSUMPTIONS = [
    'the sample drawn for a seed is the one C19 checks',
    'refits are compared after few iterations, so that the comparison does '
    'not depend on how well the optimiser converges',
    'Boot does not support mixed logit models',
]
