"""C15: caller-owned inputs are never modified."""
import copy
import os
import shutil
import tempfile
from collections import OrderedDict

import numpy as np
import pandas as pd
from scipy.sparse import issparse

import boot
import est
import gen
from core import Family, Violation
from gen import Prob, configs
from checks import c01, c02
from checks.c06 import medium, med_configs, mixids


def snap(o):
    if isinstance(o, pd.DataFrame):
        return ('df', [str(c) for c in o.columns], list(o.index),
                [str(t) for t in o.dtypes], o.copy(deep=True))
    if isinstance(o, pd.Series):
        return ('s', list(o.index), str(o.dtype), o.copy(deep=True))
    if isinstance(o, np.ndarray):
        return ('a', str(o.dtype), o.shape, o.copy())
    if issparse(o):
        return ('m', o.shape, o.toarray())
    if isinstance(o, dict):
        return ('d', type(o).__name__, [(k, snap(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return ('l', type(o).__name__, [snap(v) for v in o])
    return ('v', copy.deepcopy(o) if not callable(o) else id(o))


def diff(now, was, path, allow):
    """None, or a description of the first difference."""
    if now[0] != was[0]:
        return path + ' changed its type'
    if now[0] == 'df':
        a, b = now[4], was[4]
        cols = list(now[1])
        extra = [c for c in cols if c not in was[1]]
        if extra and extra != allow:
            return '%s gained the columns %s' % (path, extra)
        if [c for c in cols if c not in extra] != was[1]:
            return '%s columns %s were %s' % (path, cols, was[1])
        if extra and not (a[extra[0]] == 1).all():
            return '%s intercept column is not constant one' % path
        if now[2] != was[2]:
            return '%s index %s was %s' % (path, now[2], was[2])
        for c in was[1]:
            if str(a[c].dtype) != str(b[c].dtype):
                return '%s[%s] dtype' % (path, c)
            x, y = a[c].values.tolist(), b[c].values.tolist()
            if not same_list(x, y):
                return '%s[%s] is %s was %s' % (path, c, x, y)
        return None
    if now[0] == 's':
        if now[1] != was[1] or now[2] != was[2] or not same_list(
                now[3].tolist(), was[3].tolist()):
            return '%s is %s was %s' % (path, now[3].tolist(),
                                        was[3].tolist())
        return None
    if now[0] == 'a':
        if now[1:3] != was[1:3] or not same_list(
                now[3].ravel().tolist(), was[3].ravel().tolist()):
            return '%s is %s was %s' % (path, now[3].tolist(),
                                        was[3].tolist())
        return None
    if now[0] == 'm':
        if now[1] != was[1] or not np.array_equal(now[2], was[2]):
            return path + ' changed'
        return None
    if now[0] == 'd':
        if now[1] != was[1] or [k for k, _ in now[2]] != [k for k, _ in
                                                         was[2]]:
            return '%s keys %s were %s' % (path, [k for k, _ in now[2]],
                                           [k for k, _ in was[2]])
        for (k, v), (_, w) in zip(now[2], was[2]):
            d = diff(v, w, '%s[%r]' % (path, k), allow)
            if d:
                return d
        return None
    if now[0] == 'l':
        if now[1] != was[1] or len(now[2]) != len(was[2]):
            return '%s changed its length or type' % path
        for k, (v, w) in enumerate(zip(now[2], was[2])):
            d = diff(v, w, '%s[%d]' % (path, k), allow)
            if d:
                return d
        return None
    if now[1] != was[1] and not (now[1] != now[1] and was[1] != was[1]):
        return '%s is %r was %r' % (path, now[1], was[1])
    return None


def same_list(x, y):
    return len(x) == len(y) and all(
        a == b or (a != a and b != b) for a, b in zip(x, y))


class Guard(object):
    """Every caller-owned object is registered once and re-checked after
    every later call."""

    def __init__(self, ctx, allow=()):
        self.ctx, self.items, self.allow = ctx, [], list(allow)

    def own(self, name, obj):
        self.items.append((name, obj, snap(obj)))
        return obj

    def after(self, op):
        for name, obj, was in self.items:
            self.ctx.compared += 1
            d = diff(snap(obj), was, name, self.allow)
            if d:
                raise Violation('%s modified the caller\'s %s' % (op, d))

    def call(self, op, func, *args, **kwargs):
        out = self.ctx.call(func, *args, **kwargs)
        self.after(op)
        return out


# ------------------------------------------------------------------ models
def run_model(scn, ctx):
    import pylogit as pl
    p = Prob(scn)
    icpt = 'intercept' in p.variables()
    g = Guard(ctx, ['intercept'] if icpt else [])

    def frame(q, name):
        df = q.df(extra=True, index=scn.get('index'))
        if icpt and not scn.get('has_intercept'):
            df = df.drop(columns=['intercept'])
        return g.own(name, df)

    df = frame(p, 'data')
    spec = g.own('specification', p.spec_dict())
    kw = p.model_kwargs(shuffle=bool(scn.get('shuffle')))
    if scn.get('shuffle') and 'nest_spec' in kw:
        # alternatives listed in no particular order
        kw['nest_spec'] = OrderedDict(
            (k, v[::-1] if len(v) < 3 else v[1:] + v[:1])
            for k, v in kw['nest_spec'].items())
    for k in kw:
        g.own(k, kw[k])
    cols = (gen.ALT, gen.OBS, gen.CH)
    make = lambda: pl.create_choice_model(df, cols[0], cols[1], cols[2],
                                          spec, p.type, **kw)
    model = g.call('create_choice_model', make)
    g.call('create_choice_model again', make)
    n, s, c, b, gg = p.sizes()
    init = g.own('init_vals', np.array(p.params('a')))
    con = g.own('constrained_pos', [p.nparams() - 1, 0])
    w = g.own('weights', p.row_weights(
        est.weight_menu(p.nunits())[1] if not scn.get('shuffle') else
        [[2.0, 1e-13, 0.5, 0.0, 1.0, 40.0][k % 6]
         for k in range(p.nunits())]))
    mk = g.own('fit options', dict(num_draws=p.cfg['draws'], seed=17)
               if p.type == 'Mixed Logit' else {})
    ridge = None if p.type == 'Nested Logit' else 0.7
    for just in (True, False):
        for cp, wt in ((None, None), (con, w)):
            g.call('fit_mle', model.fit_mle, init, maxiter=scn['iters'],
                   print_res=False, ridge=ridge, constrained_pos=cp,
                   weights=wt, just_point=just, **mk)
    if p.type in ('Asym', 'Scobit', 'Uneven', 'Cloglog'):
        blocks = {}
        if s:
            blocks['init_shapes'] = g.own('init_shapes', init[:s].copy())
        if c:
            blocks['init_intercepts'] = g.own('init_intercepts',
                                              init[s:s + c].copy())
        blocks['init_coefs'] = g.own('init_coefs', init[s + c:].copy())
        m2 = g.call('create', make)
        g.call('fit_mle with blocks', m2.fit_mle, None, maxiter=0,
               print_res=False, ridge=ridge, **blocks)
        ctx.close(m2.params.values, init, 'blocks of initial values')
    q = Prob(dict(scn, pat=scn['pat'][::-1],
                  valid=list(range(p.n))[::-1], order='twist',
                  mix=(scn.get('mix') or list(range(1, p.n + 1)))[::-1]))
    new = frame(q, 'prediction data')
    pl1 = g.own('param_list', p.param_list(p.params('d')))
    for kwp in (dict(), dict(choice_col=gen.CH),
                dict(choice_col=gen.CH, return_long_probs=False)):
        g.call('predict', model.predict, new, **dict(kwp, **mk))
        g.call('predict', model.predict, new, param_list=pl1,
               **dict(kwp, **mk))
        g.call('predict', model.predict, df, param_list=pl1,
               **dict(kwp, **mk))
    if p.type not in ('Mixed Logit', 'Nested Logit'):
        two = [None if x is None else np.stack([x, x * 0.5], axis=1)
               for x in pl1]
        g.own('param_list with columns', two)
        g.call('predict columns', model.predict, new, param_list=two)
        one = [None if x is None else np.array(x)[:, None] for x in pl1]
        g.own('param_list with one column', one)
        g.call('predict one column', model.predict, new, param_list=one)
        g.call('predict one column', model.predict, new, param_list=one,
               choice_col=gen.CH)
    if p.type == 'Mixed Logit':
        for kwp in (dict(), dict(choice_col=gen.CH)):
            g.call('panel_predict', model.panel_predict, new, 3, seed=5,
                   **kwp)
    sel = g.own('coefs', model.params.index.tolist()[:2])
    g.call('conf_int', model.conf_int, coefs=sel)
    with boot.quiet():
        g.call('print_summaries', model.print_summaries)
    g.call('statsmodels', model.get_statsmodels_summary)
    scratch = tempfile.mkdtemp()
    try:
        with boot.quiet():
            g.call('to_pickle', model.to_pickle,
                   os.path.join(scratch, 'm.pkl'))
    finally:
        shutil.rmtree(scratch)
    # the estimator and the probability functions behind it
    e = p.estimator(model, ridge=ridge, constrained_pos=con, weights=w)
    for f in (e.convenience_calc_probs, e.convenience_calc_log_likelihood,
              e.convenience_calc_gradient, e.convenience_calc_hessian,
              e.convenience_calc_fisher_approx,
              e.calc_neg_log_likelihood_and_neg_gradient,
              e.calc_neg_hessian, e.convenience_split_params):
        g.call(f.__name__, f, init)
    ctx.see(p.type, model.log_likelihood, len(g.items))


def gen_model(tier):
    pat = medium('mix')
    for cfg in med_configs(4):
        for spec in ('xy', 'ixg'):
            c = dict(cfg)
            if spec == 'ixg':
                if c['type'] == 'Mixed Logit':
                    c['mixing'] = ['b_y', 'b_x_[0, 1]']
                elif c.get('iref') is not None:
                    continue
            for has in ((0, 1) if spec == 'ixg' else (0,)):
                for index in (None, 'rev', 'dup'):
                    for shuffle in (0, 1):
                        yield dict(pat=pat, model=c, spec=spec,
                                   mix=mixids(len(pat), 'panel'),
                                   has_intercept=has, index=index,
                                   shuffle=shuffle, iters=2)


# --------------------------------------------------------------- bootstrap
def run_boot(scn, ctx):
    from pylogit import bootstrap, bootstrap_sampler as bs
    from pylogit import bootstrap_abc as abc, bootstrap_calcs as bc
    p = Prob(scn)
    g = Guard(ctx)
    df = g.own('data', p.df(extra=True, index=scn.get('index')))
    model = p.model(df=df)
    mnl_df = p.df()
    mnl = boot.mnl_for(p, mnl_df)
    mle = g.own('mle_params', np.array(p.params('d')))
    g.after('setup')
    b = g.call('Boot', bootstrap.Boot, model, mle)
    is_mnl = p.type == 'MNL'
    kwm = g.own('mnl_fit_kwargs', dict(ridge=0.7, maxiter=2,
                                       print_res=False))
    im = g.own('mnl_init_vals', np.zeros(boot.mnl_size(p)))
    w = g.own('weights', p.row_weights(
        est.weight_menu(p.nunits())[1] if not scn.get('index') else
        [[2.0, 1e-13, 0.5, 0.0, 1.0, 40.0][k % 6]
         for k in range(p.nunits())]))
    con = g.own('constrained_pos', [1])
    fit = dict(maxiter=2, ridge=0.7)
    for rep in range(2):
        kw = {} if is_mnl and rep == 0 else dict(
            mnl_obj=mnl, mnl_init_vals=im, mnl_fit_kwargs=kwm)
        with boot.quiet():
            g.call('generate_bootstrap_replicates',
                   b.generate_bootstrap_replicates, 3, boot_seed=4,
                   weights=w, constrained_pos=con, **dict(fit, **kw))
            g.call('generate_bootstrap_replicates',
                   b.generate_bootstrap_replicates, 3, boot_seed=5,
                   **dict(fit, **kw))
            g.call('generate_jackknife_replicates',
                   b.generate_jackknife_replicates, constrained_pos=con,
                   **dict(fit, **kw))
    for r in ('bootstrap', 'jackknife'):
        g.own(r + '_replicates', getattr(b, r + '_replicates'))
        with boot.quiet():
            g.call('calc_log_likes_for_replicates',
                   b.calc_log_likes_for_replicates, replicates=r)
            g.call('calc_gradient_norm_for_replicates',
                   b.calc_gradient_norm_for_replicates, replicates=r,
                   weights=w, constrained_pos=con)
    reps = g.own('replicates', np.array([[0.1, 2.0], [0.3, -1.0],
                                         [0.2, 0.5], [0.05, 0.4]]))
    jack = g.own('jackknife', np.array([[0.1, 2.0], [0.3, -1.0],
                                        [0.15, 0.5]]))
    est_ = g.own('estimate', np.array([0.15, 0.45]))
    g.call('calc_percentile_interval', bc.calc_percentile_interval, reps,
           80)
    g.call('calc_bca_interval', bc.calc_bca_interval, reps, jack, est_, 80)
    with boot.quiet():
        g.call('calc_conf_intervals', b.calc_conf_intervals, 90,
               interval_type='pi')
    # ABC intervals: weights and options handed through
    init = g.own('init_vals', np.array(p.params('d')))
    opts = g.own('fit_kwargs', dict(ridge=0.7, maxiter=1, print_res=False,
                                    weights=w))
    if scn.get('abc'):
        with boot.quiet():
            # with one iteration the influence values may be degenerate, in
            # which case the interval cannot be computed
            try:
                ctx.call(b.calc_abc_interval, 20, init, epsilon=0.01, **opts)
            except Exception:
                pass
            g.after('calc_abc_interval')
            g.call('calc_finite_diff_terms_for_abc',
                   abc.calc_finite_diff_terms_for_abc, model, mle, init,
                   0.01, **opts)
    # sampler functions
    ids, alts, ch = (g.own('obs ids', df[gen.OBS].values.copy()),
                     g.own('alt ids', df[gen.ALT].values.copy()),
                     g.own('choices', df[gen.CH].values.copy()))
    sam = g.call('create_cross_sectional_bootstrap_samples',
                 bs.create_cross_sectional_bootstrap_samples, ids, alts, ch,
                 2, seed=3)
    g.own('samples', sam)
    gd = g.call('create_deepcopied_groupby_dict',
                bs.create_deepcopied_groupby_dict, df, gen.OBS)
    g.own('groupby dict', gd)
    out = g.call('create_bootstrap_dataframe', bs.create_bootstrap_dataframe,
                 df, gen.OBS, sam[0], gd)
    out['x'] = 99.0
    g.after('writing to the bootstrap dataframe')
    ctx.see(p.type, sam)


def gen_boot(tier):
    pat = medium('mix')
    for cfg in med_configs(4):
        if cfg['type'] == 'Mixed Logit':
            continue
        for index in (None, 'dup'):
            yield dict(pat=pat, model=cfg, spec='xy', index=index,
                       abc=int(index is None))


# -------------------------------------------------------------- data tools
def run_tools(scn, ctx):
    import pylogit as pl
    from pylogit import choice_tools as ct
    g = Guard(ctx)
    if scn['tool'] == 'wide':
        s = dict(labels=scn['labels'], ids=scn['ids'], pat=scn['pat'],
                 dtype=scn.get('dtype'), index=scn.get('index'))
        df = g.own('wide_data', c01.wide_frame(s))
        J = len(scn['labels'])
        ind = g.own('ind_vars', ['inc', 'age'])
        avail = g.own('availability_vars', OrderedDict(
            (scn['labels'][a], 'av%d' % a) for a in range(J))
            if scn['od'] else dict((scn['labels'][a], 'av%d' % a)
                                   for a in range(J)))
        spec = g.own('alt_specific_vars', {
            'time': dict((scn['labels'][a], 'time%d' % a)
                         for a in range(J)),
            'cost': dict((scn['labels'][a], 'cost%d' % a)
                         for a in range(J - 1))})
        for _ in range(2):
            out = g.call('convert_wide_to_long', pl.convert_wide_to_long,
                         df, ind, spec, avail, 'oid', 'picked',
                         new_alt_id_name='mode')
        out.iloc[:, :] = 0
        g.after('writing to the converted data')
        ctx.see(out.shape)
    else:
        s = dict(labels=scn['labels'], ids=scn['ids'], pat=scn['pat'],
                 dtype=scn.get('dtype'), index=scn.get('index'),
                 order=scn.get('order'))
        df = g.own('long_data', c02.long_frame(s))
        ind = g.own('ind_vars', ['inc', 'age'])
        spec = g.own('alt_specific_vars', ['time', 'cost'])
        sub = g.own('subset_specific_vars', scn['sub'])
        names = g.own('alt_name_dict', dict(
            (a, 'm%s' % a) for a in scn['labels']) if scn['od'] else None)
        if sub:
            spec = g.own('alt_specific_vars', ['time'])
        for _ in range(2):
            out = g.call('convert_long_to_wide', pl.convert_long_to_wide, df,
                         ind, spec, sub, 'oid', 'alt', 'picked',
                         alt_name_dict=names, null_value=-9)
        out.iloc[:, :] = 0
        g.after('writing to the converted data')
        spec3 = g.own('specification', OrderedDict(
            [('time', 'all_diff'), ('cost', [scn['labels'][0]]),
             ('inc', [scn['labels'][:2]])]))
        nm = g.own('names', OrderedDict(
            [('cost', ['c']), ('time', ['t%d' % k for k in
                                        range(len(scn['labels']))]),
             ('inc', ['i'])]))
        d, nn = g.call('create_design_matrix', ct.create_design_matrix, df,
                       spec3, 'alt', names=nm)
        d[:] = 0
        nn.append('x')
        g.after('writing to the design matrix')
        nest = g.own('nest_spec', OrderedDict(
            [('n1', scn['labels'][1:]), ('n0', scn['labels'][:1])]))
        m = g.call('create_long_form_mappings', ct.create_long_form_mappings,
                   df, 'oid', 'alt', choice_col='picked', nest_spec=nest,
                   mix_id_col='age')
        m = g.call('create_long_form_mappings', ct.create_long_form_mappings,
                   df, 'oid', 'alt', choice_col='picked', nest_spec=nest,
                   mix_id_col='age', dense=True)
        arr = g.own('id_array', df['oid'].values.copy())
        u = g.own('unique_ids', np.unique(arr))
        g.call('create_sparse_mapping', ct.create_sparse_mapping, arr,
               unique_ids=u)
        g.call('get_original_order_unique_ids',
               ct.get_original_order_unique_ids, arr)
        g.call('ensure_contiguity', ct.ensure_contiguity_in_observation_rows,
               np.sort(arr))
        g.call('create_row_to_some_id_col_mapping',
               ct.create_row_to_some_id_col_mapping, arr)
        ctx.see(out.shape)
    ctx.see(scn['labels'])


def gen_tools(tier):
    pats = [[[[0, 1, 2], 0], [[1, 2], 1], [[0, 2], 2]],
            [[[2, 1, 0], 2], [[1, 0], 0], [[1], 1]]]
    for pat in pats:
        for labels in ([1, 2, 3], [-4, 0, 9], [12, 7, 300]):
            for ids in ([1, 2, 3], [30, 10, 20]):
                for index in (None, 'rev', 'dup'):
                    for dtype in (None, 'bool', 'float'):
                        for od in (0, 1):
                            base = dict(pat=pat, labels=labels, ids=ids,
                                        index=index, dtype=dtype, od=od)
                            yield dict(base, tool='wide')
                            for sub in ({}, {'cost': sorted(labels)[:2]}):
                                if sub and od:
                                    continue
                                yield dict(base, tool='long', sub=sub,
                                           labels=sorted(labels),
                                           order='alt' if od else None)


FAMILIES = [
    Family('models', gen_model, run_model,
           '12 configurations x 2 specifications x intercept present/added x '
           '3 index kinds x name orders; every argument re-checked after '
           'each of about 35 public calls', 10),
    Family('bootstrap', gen_boot, run_boot,
           '11 configurations x every public bootstrap call, twice', 5),
    Family('data-tools', gen_tools, run_tools,
           '2 patterns x 3 labellings x 2 id sets x 3 index kinds x 3 dtypes '
           'x declaration kinds, every conversion and mapping call', 5),
]
ASSUMPTIONS = [
    'the documented constant column named intercept may be added to the data',
]
