"""C07: predictions depend only on the choice situation being predicted."""
import os
import shutil
import tempfile
from itertools import combinations, permutations

import numpy as np

import gen
import ref
from core import Family
from gen import Prob, patterns, configs
from checks.c06 import medium, med_configs, mixids, seed_draws

MIXSMALL = (['b_y', 'b_x'],)
SHAPED = ('Asym', 'Scobit', 'Uneven')


def kwargs(p):
    return dict(num_draws=p.cfg['draws'], seed=17) \
        if p.type == 'Mixed Logit' else {}


def reference(p, params):
    draws = seed_draws(p, 17) if p.type == 'Mixed Logit' else None
    return ref.real(ref.probs(p, params, draws))


def chosen_ref(p, want):
    out = []
    for i in p.obs_order:
        out.append(sum(want[r] for r, (o, a) in enumerate(p.rows)
                       if o == i and p.choice[r]))
    return out


def close(ctx, a, b, msg):
    ctx.close(a, b, msg, rtol=1e-7, atol=1e-10)


def run_variant(scn, ctx):
    """Model built on the base data; predictions for every variant of it."""
    p0 = Prob(scn)
    params = p0.params(scn.get('par', 'a'))
    model = ctx.call(p0.model)
    pl = p0.param_list(params)
    kw = kwargs(p0)
    base = ctx.call(model.predict, p0.df(), param_list=pl, **kw)
    key0 = dict(((i, a), float(base[r])) for r, (i, a) in
                enumerate(p0.rows))
    ctx.see(base)
    for v in scn['variants']:
        d = dict(scn)
        frame = v.get('frame', {})
        for k in ('order', 'ids', 'pat', 'valid', 'mix'):
            if k in v:
                d[k] = v[k]
        keep = v.get('keep')
        if keep is not None:
            d['pat'] = [scn['pat'][i] for i in keep]
            d['valid'] = list(keep)
            if scn.get('mix'):
                d['mix'] = [scn['mix'][i] for i in keep]
            if scn.get('ids'):
                d['ids'] = [scn['ids'][i] for i in keep]
        p = Prob(d)
        what = 'predict %s variant %s' % (p.cfg, v)
        want = reference(p, params) if (p.type == 'Mixed Logit') else None
        if want is None:
            back = keep if keep is not None else list(range(p0.n))
            want = [key0[(back[i], a)] for i, a in p.rows]
        df = p.df(extra=frame.get('extra', False), index=frame.get('index'),
                  floats=frame.get('floats', False))
        if frame.get('cols') == 'rev':
            df = df[list(df.columns)[::-1]]
        if frame.get('nochoice'):
            df = df.drop(columns=[gen.CH])
        if frame.get('noicpt'):
            df = df.drop(columns=['intercept'])
        scratch = None
        try:
            data = df
            if frame.get('csv'):
                scratch = tempfile.mkdtemp()
                data = os.path.join(scratch, 'd.csv')
                df.to_csv(data, index=False)
            long1 = ctx.call(model.predict, data, param_list=pl, **kw)
            close(ctx, long1, want, what)
            if not frame.get('nochoice'):
                ch = chosen_ref(p, want)
                got = ctx.call(model.predict, data, param_list=pl,
                               choice_col=gen.CH, **kw)
                ctx.check(isinstance(got, tuple) and len(got) == 2,
                          'predict with choice_col and return_long_probs '
                          'must return two arrays', type(got))
                close(ctx, got[0], ch, 'chosen probabilities, ' + what)
                close(ctx, got[1], want, 'long probabilities, ' + what)
                only = ctx.call(model.predict, data, param_list=pl,
                                choice_col=gen.CH, return_long_probs=False,
                                **kw)
                close(ctx, only, ch, 'chosen probabilities only, ' + what)
            if frame.get('other'):
                # choices in a column the model was not built with
                last = {}
                for r, (i, a) in enumerate(p.rows):
                    last[i] = r
                df['picked'] = [int(r in last.values())
                                for r in range(len(p.rows))]
                ch = [want[last[i]] for i in p.obs_order]
                a, b = ctx.call(model.predict, df, param_list=pl,
                                choice_col='picked', **kw)
                close(ctx, a, ch, 'other choices, ' + what)
                close(ctx, b, want, 'long, other choices, ' + what)
                a = ctx.call(model.predict, df, param_list=pl,
                             choice_col='picked', return_long_probs=False,
                             **kw)
                close(ctx, a, ch, 'only other choices, ' + what)
        finally:
            if scratch:
                shutil.rmtree(scratch)


def run_history(scn, ctx):
    """One model object predicts for several datasets in turn, every dataset
    directly after every other: each time as if it were the only one."""
    p0 = Prob(scn)
    params = p0.params('a')
    model = ctx.call(p0.model)
    pl = p0.param_list(params)
    kw = kwargs(p0)
    probs = []
    for v in scn['data']:
        p = Prob(dict(scn, **v))
        want = reference(p, params)
        probs.append((p, p.df(), want, chosen_ref(p, want)))
    n = len(probs)
    walk = []
    for i in range(n):
        walk.append(i)
        for j in range(i + 1, n):
            walk += [i, j]
    walk.append(0)
    for prev, k in zip([None] + walk, walk):
        p, df, want, ch = probs[k]
        what = '%s: data %s after data %s' % (p.cfg, scn['data'][k],
                                              'none' if prev is None else
                                              scn['data'][prev])
        for form in ((0, 1, 2), (1, 2, 0), (2, 0, 1))[k % 3][:scn['forms']]:
            d = df if scn['same'] else df.copy()
            if form == 0:
                close(ctx, ctx.call(model.predict, d, param_list=pl, **kw),
                      want, 'long, ' + what)
            elif form == 1:
                a, b = ctx.call(model.predict, d, param_list=pl,
                                choice_col=gen.CH, **kw)
                close(ctx, a, ch, 'chosen of both, ' + what)
                close(ctx, b, want, 'long of both, ' + what)
            else:
                a = ctx.call(model.predict, d, param_list=pl,
                             choice_col=gen.CH, return_long_probs=False,
                             **kw)
                close(ctx, a, ch, 'chosen, ' + what)
    ctx.see(want)


def gen_history(tier):
    pat = [[[0, 1, 2], 1], [[0, 1, 2], 2], [[0, 2], 0]]
    data = [dict(),
            dict(pat=[[[0, 1, 2], 2], [[0, 1, 2], 0], [[0, 2], 2]]),
            dict(order=[3, 1, 2, 0, 4, 5, 6, 7]),       # same alternatives
            dict(order=[0, 4, 2, 3, 1, 5, 6, 7]),
            dict(valid=[4, 9, 6]),
            dict(ids=[2, 3, 1]),
            dict(ids=[2, 1, 3]),
            dict(pat=[[[0, 1, 2], 1], [[0, 2], 2], [[0, 1, 2], 0]]),
            dict(pat=[[[2, 1, 0], 1], [[0, 1, 2], 2], [[2, 0], 0]])]
    for cfg in configs(3, MIXSMALL):
        mixes = [None]
        if cfg['type'] == 'Mixed Logit':
            mixes = [mixids(3, 'own'), mixids(3, 'panel')]
        for mix in mixes:
            dd = data
            if mix:
                dd = data[:4] + [dict(mix=m) for m in
                                 ([7, 7, 7], [5, 6, 5], [6, 5, 6])] + data[4:]
            for same, forms in ((0, 3), (1, 1)):
                yield dict(pat=pat, model=cfg, spec='xy', mix=mix,
                           data=dd, same=same, forms=forms)


NAMED = [dict(order='rev'), dict(order='alt'), dict(order='twist')]
IDS = [[5, 8, 1000], [-3, 0, 50], [50, -3, 8], [3, 2, 1], [20, 100, 3],
       [20000002, 20000003, 20000001], [3000000003, 3000000001, 3000000002]]


def all_orders(nrows):
    return [dict(order=list(o)) for o in permutations(range(nrows))]


def rotations(nrows):
    out = []
    for k in range(1, nrows):
        out.append(dict(order=list(range(k, nrows)) + list(range(k))))
    for k in range(nrows - 1):                    # adjacent transpositions
        o = list(range(nrows))
        o[k], o[k + 1] = o[k + 1], o[k]
        out.append(dict(order=o))
    return out


def gen_perm(tier):
    full = tier == 'thorough'
    for n in (1, 2):
        for pat in patterns(2, n, ordered=False):
            rows = sum(len(s) for s, _ in pat)
            for cfg in configs(2, MIXSMALL):
                for mix in ([[4] * n, list(range(n, 0, -1))]
                            if cfg['type'] == 'Mixed Logit' else [None]):
                    yield dict(pat=pat, model=cfg, spec='xy', mix=mix,
                               variants=all_orders(rows))
    pats = [[[[0, 1, 2], 1], [[0, 2], 2]],
            [[[1, 2], 2], [[0, 1, 2], 0]],
            [[[0, 1, 2], 0], [[1], 1], [[1, 2], 1]]]
    if full:
        pats = list(patterns(3, 2, ordered=False))
    for pat in pats:
        rows = sum(len(s) for s, _ in pat)
        for cfg in configs(3, MIXSMALL, small=not full):
            mixes = [None]
            if cfg['type'] == 'Mixed Logit':
                mixes = [mixids(len(pat), k) for k in
                         ('own', 'panel', 'alternate', 'one')]
            for mix in mixes:
                yield dict(pat=pat, model=cfg, spec='xy', mix=mix,
                           variants=NAMED + (all_orders(rows)
                                             if rows <= 5 and (
                                                 full or cfg['type'] in
                                                 ('MNL', 'Mixed Logit'))
                                             else rotations(rows)))


def gen_relabel(tier):
    pats = [[[[0, 1, 2], 1], [[0, 2], 2]],
            [[[1, 2], 2], [[2, 1, 0], 0]],
            [[[0, 1, 2], 0], [[1], 1], [[2, 1], 1]]]
    for pat in pats:
        n = len(pat)
        for cfg in configs(3, MIXSMALL):
            for mix in ([mixids(n, 'own'), mixids(n, 'panel')]
                        if cfg['type'] == 'Mixed Logit' else [None]):
                v = [dict(ids=i[:n]) for i in IDS]
                v += [dict(ids=i[:n], order='alt') for i in IDS]
                v += [dict(frame=dict(index=k)) for k in
                      ('rev', 'dup', 'str')]
                v += [dict(order='twist', frame=dict(index=k)) for k in
                      ('rev', 'dup', 'str')]
                v += [dict(frame=dict(extra=True)),
                      dict(frame=dict(extra='blank')),
                      dict(frame=dict(extra='blank', csv=True)),
                      dict(frame=dict(cols='rev')),
                      dict(frame=dict(floats=True)),
                      dict(frame=dict(nochoice=True)),
                      dict(frame=dict(other=True)),
                      dict(order='alt', frame=dict(other=True,
                                                   nochoice=True)),
                      dict(frame=dict(csv=True)),
                      dict(order='rev', ids=IDS[2][:n],
                           frame=dict(csv=True, extra=True, cols='rev'))]
                for spec in ('xy', 'ixg'):
                    c = dict(cfg)
                    if spec == 'ixg' and c['type'] == 'Mixed Logit':
                        c['mixing'] = ['b_y', 'b_x_[0, 1]']
                    yield dict(pat=pat, model=c, spec=spec, mix=mix,
                               variants=v)


def gen_subset(tier):
    """Every non-empty subset and order of the choice situations."""
    pats = [[[[0, 1], 1], [[1, 0], 0], [[0, 1], 1]],
            [[[0, 1, 2], 1], [[2, 0, 1], 0], [[0, 2], 2]],
            [[[2, 1, 0], 0], [[1], 1], [[2, 1], 1]]]
    if tier == 'thorough':
        pats += [[list(c) for c in q] for q in
                 patterns(3, 3, ordered=False)][::3]
    for pat in pats:
        n = len(pat)
        keeps = [list(o) for k in range(1, n + 1)
                 for s in combinations(range(n), k)
                 for o in permutations(s)]
        J = max(max(s) for s, _ in pat) + 1
        for cfg in configs(J, MIXSMALL):
            mixes = [None]
            if cfg['type'] == 'Mixed Logit':
                mixes = [mixids(n, k) for k in ('own', 'panel', 'alternate',
                                                'one')]
            for mix in mixes:
                specs = ('xy', 'ixg', 'xd')
                for spec in specs:
                    c = dict(cfg)
                    if J < 3 and spec == 'ixg':
                        continue
                    if c['type'] == 'Mixed Logit':
                        if spec == 'xd':
                            continue
                        if spec == 'ixg':
                            c['mixing'] = ['b_y', 'b_x_[0, 1]']
                    yield dict(pat=pat, model=c, spec=spec, mix=mix,
                               variants=[dict(keep=k) for k in keeps] + (
                                   [dict(frame=dict(noicpt=True)),
                                    dict(keep=keeps[0], order='rev',
                                         frame=dict(noicpt=True, csv=True))]
                                   if spec == 'ixg' else []))


def gen_medium(tier):
    for kind in ('alts6', 'alts12', 'obs30', 'mix', 'obs300', 'alts140'):
        pat = medium(kind)
        n = len(pat)
        J = max(max(s) for s, _ in pat) + 1
        half = list(range(0, n, 2))
        v = list(NAMED) + [dict(keep=half), dict(keep=[0] + half[:0:-1]),
                           dict(ids=[3000 - 7 * i for i in range(n)]),
                           dict(ids=[3000000050 - i for i in range(n)]),
                           dict(keep=list(range(n))[::-1]),
                           dict(frame=dict(csv=True, index='rev', extra='blank')),
                           dict(order='alt', ids=[3 * ((i * 7) % (31 if n < 31 else 307)) for i in
                                                  range(n)])]
        for cfg in med_configs(J):
            mks = ('own', 'panel', 'alternate', 'one') \
                if cfg['type'] == 'Mixed Logit' else ('own',)
            for mk in mks:
                for par in ('a', 'd'):
                    yield dict(pat=pat, model=cfg, spec='xy', par=par,
                               mix=mixids(n, mk), variants=v)


def run_columns(scn, ctx):
    p = Prob(scn)
    model = ctx.call(p.model)
    df = p.df()
    base = [p.params(w) for w in ('a', 'zero', 'd', 'c')]
    singles = []
    for x in base:
        singles.append([float(z) for z in ctx.call(
            model.predict, df, param_list=p.param_list(x))])
        close(ctx, singles[-1], reference(p, x), 'single column')
    ch = [chosen_ref(p, s) for s in singles]
    for cols in scn['cols']:
        lists = [p.param_list(base[c]) for c in cols]
        pl = [None if lists[0][k] is None else
              np.stack([q[k] for q in lists], axis=1) for k in range(4)]
        got = ctx.call(model.predict, df, param_list=pl)
        got = np.asarray(got)
        want = [[singles[c][r] for c in cols] for r in range(len(p.rows))]
        wantc = [[ch[c][r] for c in cols] for r in range(p.n)]
        if len(cols) == 1 and got.ndim == 1:
            want = [w[0] for w in want]
            wantc = [w[0] for w in wantc]
        ctx.see(got)
        close(ctx, got, want, 'columns %s of %s' % (cols, p.cfg))
        g = ctx.call(model.predict, df, param_list=pl, choice_col=gen.CH)
        ctx.check(isinstance(g, tuple) and len(g) == 2, 'two arrays')
        close(ctx, np.asarray(g[1]), want, 'long of columns %s' % (cols,))
        close(ctx, np.asarray(g[0]), wantc, 'chosen of columns %s' % (cols,))
        g = ctx.call(model.predict, df, param_list=pl, choice_col=gen.CH,
                     return_long_probs=False)
        close(ctx, np.asarray(g), wantc, 'chosen only of columns %s' %
              (cols,))


def gen_columns(tier):
    cols = [[0], [1], [0, 1], [1, 0], [2, 0, 3], [0, 1, 2, 3], [2, 2]]
    pats = [[[[0, 1], 1]], [[[0, 1], 1], [[1, 0], 0], [[1], 1]],
            [[[0, 1, 2], 1], [[0, 2], 2]],
            [[[1, 2], 2], [[2, 1, 0], 0], [[0], 0]], medium('mix')]
    for pat in pats:
        J = max(max(s) for s, _ in pat) + 1
        for cfg in configs(J, ()):
            if cfg['type'] == 'Nested Logit':
                continue
            for spec in ('xy', 'x'):
                yield dict(pat=pat, model=cfg, spec=spec, cols=cols,
                           anon=spec == 'x')


def run_fitted(scn, ctx):
    """Predictions from stored estimates equal those from the same values
    passed explicitly, on the estimation data and on other data."""
    p = Prob(scn)
    params = p.params(scn['par'])
    model = ctx.call(p.model)
    kw = kwargs(p)
    ctx.call(model.fit_mle, np.array(params), maxiter=0, print_res=False,
             **kw)
    for keep in (None, list(range(p.n))[::-1]):
        d = dict(scn)
        if keep is not None:
            d['pat'] = [scn['pat'][i] for i in keep]
            d['valid'] = keep
            d['mix'] = [scn['mix'][i] for i in keep]
        q = Prob(d)
        got = ctx.call(model.predict, q.df(), **kw)
        close(ctx, got, reference(q, params), 'stored estimates %s' % p.cfg)
        got = ctx.call(model.predict, q.df(), choice_col=gen.CH, **kw)
        close(ctx, got[0], chosen_ref(q, reference(q, params)), 'chosen')
        ctx.see(got[0])
        got = ctx.call(model.predict, q.df(),
                       param_list=p.param_list(p.params('d')), **kw)
        close(ctx, got, reference(q, p.params('d')),
              'explicit parameters override the stored estimates')
    lf = np.asarray(model.long_fitted_probs)
    if p.type == 'Mixed Logit':
        lf = lf.mean(axis=1)
    close(ctx, lf, reference(p, params), 'long_fitted_probs')


def gen_fitted(tier):
    for kind in ('obs30', 'mix'):
        pat = medium(kind)
        J = max(max(s) for s, _ in pat) + 1
        for cfg in med_configs(J):
            for par in ('a', 'b', 'd'):
                yield dict(pat=pat, model=cfg, spec='xy', par=par,
                           mix=mixids(len(pat), 'own'), anon=par == 'b')


OVER = [dict(valid=7), dict(valid=0), dict(vals='int'), dict(ids=1),
        dict(order='rev'), dict(mixnew=1), dict(valid=3, order='alt', ids=1)]


def over_prob(scn, o):
    d = dict(scn)
    n = len(scn['pat'])
    if 'valid' in o:
        d['valid'] = [k + o['valid'] for k in range(n)]
    if 'vals' in o:
        d['vals'] = o['vals']
    if 'ids' in o:
        d['ids'] = [40 - 3 * k for k in range(n)]
    if 'order' in o:
        d['order'] = o['order']
    if 'mixnew' in o and scn.get('mix'):
        d['mix'] = [9 + (k * 2) % 3 for k in range(n)]
    return Prob(d)


def overwrite(df, p):
    new = p.df()
    for c in new.columns:
        df[c] = new[c].values


def run_inplace(scn, ctx):
    """The dataframe given to the model, or predicted before, is overwritten
    in place: predictions follow the values it has now."""
    p0 = Prob(scn)
    params = p0.params('a')
    kw = kwargs(p0)
    seq = [over_prob(scn, o) for o in scn['over']]
    for kind in ('built', 'predicted', 'fitted'):
        df = p0.df()
        model = ctx.call(p0.model, df if kind != 'predicted' else None)
        data = model.data if kind != 'predicted' else df
        pl = p0.param_list(params)
        if kind == 'fitted':
            ctx.call(model.fit_mle, np.array(params), maxiter=0,
                     print_res=False, **kw)
            pl = None
        targets = [data] if data is df else [data, df]
        for q in [p0] + seq + [p0]:
            for t in targets:
                overwrite(t, q)
                for twice in (0, 1):
                    a = {} if pl is None else dict(param_list=pl)
                    got = ctx.call(model.predict, t, **dict(kw, **a))
                    close(ctx, got, reference(q, params), 'predict %s on a '
                          'dataframe (%s) overwritten in place, %s' %
                          (p0.cfg, kind, scn['over']))
                    ctx.see(got)
                got = ctx.call(model.predict, t, choice_col=gen.CH,
                               **dict(kw, **a))
                close(ctx, got[0], chosen_ref(q, reference(q, params)),
                      'chosen probabilities on a dataframe (%s) overwritten '
                      'in place' % kind)


def gen_inplace(tier):
    pats = [[[[0, 1, 2], 1], [[0, 2], 2], [[2, 1], 1]], medium('mix')]
    for pat in pats:
        J = max(max(s) for s, _ in pat) + 1
        cfgs = configs(J, MIXSMALL, small=tier != 'thorough') \
            if J < 4 else med_configs(J)
        for cfg in cfgs:
            for k, o in enumerate(OVER):
                yield dict(pat=pat, model=cfg, spec='xy',
                           mix=mixids(len(pat), 'panel'),
                           over=[o, OVER[(k + 1) % len(OVER)]])


FAMILIES = [
    Family('permutations', gen_perm, run_variant,
           'all row permutations of all unordered patterns with J=2, n<=2 '
           'and, for J=3 patterns with <=5 rows, all permutations for MNL '
           'and mixed logit (thorough: every type and pattern), rotations '
           'and adjacent transpositions otherwise; every configuration; all '
           'three return options', 20),
    Family('relabelling', gen_relabel, run_variant,
           '5 id labellings, 3 index kinds, extra/reordered/missing columns, '
           'float ids, csv x every J=3 configuration x 2 specs', 20),
    Family('subsets', gen_subset, run_variant,
           'every ordered non-empty subset of 3 choice situations x every '
           'configuration x mixing assignments', 20),
    Family('medium', gen_medium, run_variant,
           '4 datasets with 4-12 alternatives or 30 observations', 10),
    Family('parameter-columns', gen_columns, run_columns,
           '7 column selections of 4 parameter vectors x every logit-type '
           'configuration x 5 datasets', 20),
    Family('in-place', gen_inplace, run_inplace,
           'the dataframe the model was built from, its stored copy, or one '
           'predicted before is overwritten in place: 7 kinds of new '
           'contents, then the original again x configurations', 20),
    Family('prediction-histories', gen_history, run_history,
           '9-12 datasets that differ in choices, grouping, ids, values, '
           'choice sets or units, each predicted directly after every other '
           'with the same model object x every configuration', 20),
    Family('fitted', gen_fitted, run_fitted,
           'stored estimates vs explicit parameters, 2 datasets x 12 '
           'configurations x 3 parameter vectors', 5),
]
ASSUMPTIONS = [
    'subsets that drop an alternative are not predicted with models that have '
    'alternative-specific shapes or outside intercepts (unsupported)',
    'several parameter columns are supported for logit-type models only',
]
