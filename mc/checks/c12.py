"""C12: calculations do not depend on what was calculated before."""
from itertools import product

import numpy as np
import pandas as pd

import est
import gen
from core import Family
from gen import Prob, configs
from checks.c06 import medium, med_configs, mixids

OPS = ['probs', 'll', 'grad', 'hess', 'info', 'negs', 'neghess']


def do(ctx, e, op, x):
    f = dict(probs=e.convenience_calc_probs,
             ll=e.convenience_calc_log_likelihood,
             grad=e.convenience_calc_gradient,
             hess=e.convenience_calc_hessian,
             info=e.convenience_calc_fisher_approx,
             negs=e.calc_neg_log_likelihood_and_neg_gradient,
             neghess=e.calc_neg_hessian)[op]
    out = ctx.call(f, x)
    return list(out) if isinstance(out, tuple) else [out]


def snap(vals):
    return [np.array(v.todense() if hasattr(v, 'todense') else v,
                     dtype=float, copy=True) for v in vals]


def compare(ctx, got, want, msg):
    ctx.check(len(got) == len(want), 'number of results ' + msg)
    for a, b in zip(snap(got), want):
        ctx.check(a.shape == b.shape, 'shape ' + msg, a, b)
        s = max(1.0, float(np.nanmax(np.abs(b)))) if b.size else 1.0
        ctx.check(bool(np.allclose(a, b, rtol=1e-9, atol=1e-11 * s,
                                   equal_nan=True)), msg, a, b)


def de_bruijn(k, n):
    """A cyclic sequence over range(k) holding every word of length n."""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def moves(p):
    out = []
    ops = OPS
    for w in ('a', 'c'):
        for o in ops:
            out.append((o, w))
    return out


def make(p, scn, model=None):
    menu = est.weight_menu(p.nunits())
    return p.estimator(model, ridge=scn.get('ridge'),
                       constrained_pos=scn.get('con'),
                       weights=p.row_weights(menu[1]) if scn.get('w')
                       else None)


def fresh_results(ctx, p, scn, mv):
    return dict((m, snap(do(ctx, make(p, scn), m[0],
                            np.array(p.params(m[1]))))) for m in mv)


def run_walk(scn, ctx):
    """Every word of `depth` calculations occurs in one long history on one
    estimator; nothing handed out earlier changes later."""
    p = Prob(scn)
    mv = moves(p)
    want = fresh_results(ctx, p, scn, mv)
    ctx.see(*[want[m] for m in mv])
    word = de_bruijn(len(mv), scn['depth'])
    e = make(p, scn)
    xs = dict((w, np.array(p.params(w))) for w in ('a', 'c'))
    held = []
    for k, i in enumerate(word):
        m = mv[i]
        got = do(ctx, e, m[0], xs[m[1]])
        compare(ctx, got, want[m], '%s at %s after %s' %
                (m[0], m[1], [mv[j] for j in word[max(0, k - 4):k]]))
        held.append((m, got, snap(got)))
        if len(held) > 4:
            held.pop(0)
        for mm, g, s in held:
            for a, b in zip(snap(g), s):
                ctx.check(bool(np.array_equal(a, b, equal_nan=True)),
                          'result of an earlier %s was changed by %s' %
                          (mm, m), a, b)
    for w in ('a', 'c'):
        ctx.check(xs[w].tolist() == [float(z) for z in p.params(w)],
                  'parameters passed in were changed', xs[w])


def run_fresh(scn, ctx):
    """Every history of length two, each on its own estimator."""
    p = Prob(scn)
    mv = moves(p)
    want = fresh_results(ctx, p, scn, mv)
    model = p.model()
    for first in mv:
        for second in mv:
            e = make(p, scn, model)
            g1 = do(ctx, e, first[0], np.array(p.params(first[1])))
            s1 = snap(g1)
            g2 = do(ctx, e, second[0], np.array(p.params(second[1])))
            compare(ctx, g2, want[second], '%s after %s' % (second, first))
            for a, b in zip(snap(g1), s1):
                ctx.check(bool(np.array_equal(a, b, equal_nan=True)),
                          'result of %s changed by %s' % (first, second), a,
                          b)
    ctx.see(*[want[m] for m in mv])


def run_pair(scn, ctx):
    """Two live estimators used alternately."""
    ps = [Prob(s) for s in scn['two']]
    ms = [moves(p)[::2] + moves(p)[7:8] for p in ps]
    want = [fresh_results(ctx, p, s, m) for p, s, m in
            zip(ps, scn['two'], ms)]
    es = [make(p, s) for p, s in zip(ps, scn['two'])]
    mv = [(k, m) for k in (0, 1) for m in ms[k]]
    for i in de_bruijn(len(mv), 2):
        k, m = mv[i]
        got = do(ctx, es[k], m[0], np.array(ps[k].params(m[1])))
        compare(ctx, got, want[k][m], 'estimator %d %s' % (k, m))
    ctx.see(*[want[0][m] for m in ms[0]])


BUF_OPS = ['probs', 'll', 'grad', 'hess', 'info', 'negs']


def buffer_points(p):
    """Parameter vectors that agree in part: equal first or last entries,
    equal sums and norms; one that differs in the seventh digit."""
    a = [float(z) for z in p.params('a')]
    pts = [a, a[-1:] + a[1:-1] + a[:1] if len(a) > 1 else [-a[0]]]
    for k in sorted(set([0, len(a) // 2, len(a) - 1])):
        b = list(a)
        b[k] = b[k] - 0.75
        pts.append(b)
    pts.append([-z for z in a])
    pts.append([z + 3e-7 for z in a])           # almost the same vector
    return pts


def run_buffer(scn, ctx):
    """One parameter array, overwritten in place between calculations."""
    p = Prob(scn)
    pts = buffer_points(p)
    mv = [(o, k) for k in range(len(pts)) for o in BUF_OPS]
    want = dict((m, snap(do(ctx, make(p, scn), m[0], np.array(pts[m[1]]))))
                for m in mv)
    ctx.see(*[want[m] for m in mv])
    e = make(p, scn)
    x = np.array(pts[0])
    word = de_bruijn(len(mv), 2)
    for k, i in enumerate(word):
        m = mv[i]
        x[:] = pts[m[1]]
        got = do(ctx, e, m[0], x)
        compare(ctx, got, want[m], '%s at %s (same array, overwritten) after '
                '%s' % (m[0], pts[m[1]], mv[word[k - 1]] if k else None))
        ctx.check(x.tolist() == pts[m[1]], 'parameters passed in were '
                  'changed', x)


def gen_buffer(tier):
    full = tier == 'thorough'
    for cfg in configs(3, est.MIXSETS if full else est.MIXSMALL,
                       small=not full):
        yield base_scn(cfg, est.OPT_PATS[1])
        if full:
            yield base_scn(cfg, est.OPT_PATS[2], w=1, ridge=0.7)


def base_scn(cfg, pat, **kw):
    return dict(pat=pat, model=cfg, spec='xy',
                mix=mixids(len(pat), 'panel'), **kw)


def gen_walk(tier):
    full = tier == 'thorough'
    for pat in est.OPT_PATS if full else est.OPT_PATS[1:2]:
        for cfg in configs(3, est.MIXSETS, small=not full):
            yield base_scn(cfg, pat, depth=3)
            if full:
                yield base_scn(cfg, pat, depth=3, w=1, ridge=0.7)
                yield base_scn(cfg, pat, depth=3, con=[0])
    for cfg in med_configs(4):
        yield base_scn(cfg, medium('mix'), depth=2, w=1, ridge=0.7)
        yield base_scn(cfg, medium('mix'), depth=2, con=[1])


def gen_fresh(tier):
    for cfg in configs(3, est.MIXSETS, small=tier != 'thorough'):
        yield base_scn(cfg, est.OPT_PATS[2])
        if tier == 'thorough':
            yield base_scn(cfg, est.OPT_PATS[1], w=1, ridge=2, con=[1])


def gen_pair(tier):
    reps = {}
    for cfg in configs(3, est.MIXSMALL, small=True):
        reps.setdefault(cfg['type'], cfg)
    types = sorted(reps)
    for a, b in product(types, repeat=2):
        for same in (0, 1):
            yield dict(two=[base_scn(reps[a], est.OPT_PATS[1]),
                            base_scn(reps[b], est.OPT_PATS[1] if same else
                                     est.OPT_PATS[2], w=1)])


# --------------------------------------------------------------- models
FIELDS = ['params', 'coefs', 'intercepts', 'shapes', 'nests', 'gradient',
          'hessian', 'cov', 'standard_errors', 'tvalues', 'pvalues',
          'fisher_information', 'robust_cov', 'robust_std_errs',
          'robust_t_stats', 'robust_p_vals', 'summary', 'fitted_probs',
          'long_fitted_probs', 'long_residuals', 'ind_chi_squareds',
          'chi_square', 'log_likelihood', 'null_log_likelihood',
          'rho_squared', 'rho_bar_squared', 'aic', 'bic', 'nobs',
          'df_model', 'df_resid', 'llf', 'bse', 'estimation_success',
          'estimation_message']


def freeze(v):
    if isinstance(v, pd.DataFrame):
        return ('df', v.index.tolist(), v.columns.tolist(),
                np.array(v.values, dtype=float, copy=True))
    if isinstance(v, pd.Series):
        return ('s', v.index.tolist(), str(v.name),
                np.array(v.values, dtype=float, copy=True))
    if isinstance(v, np.ndarray):
        return ('a', np.array(v, copy=True))
    if isinstance(v, tuple):
        return ('t',) + tuple(freeze(x) for x in v)
    return ('v', v)


def alike(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and np.allclose(
            a.astype(float), b.astype(float), rtol=1e-7, atol=1e-9,
            equal_nan=True)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        try:
            return abs(a - b) <= 1e-9 + 1e-7 * abs(b) or (a != a and b != b)
        except TypeError:
            return a == b
    return a == b


def state(model):
    return dict((f, freeze(getattr(model, f))) for f in FIELDS
                if hasattr(model, f))


def names_of(p):
    return p.param_names()


def kw_of(p):
    return dict(num_draws=p.cfg['draws'], seed=17) \
        if p.type == 'Mixed Logit' else {}


def other(p):
    """Different data for predictions with the same alternatives."""
    d = dict(p.d, pat=p.d['pat'][:5], valid=[7, 3, 11, 2, 5],
             mix=[3, 3, 1, 8, 8], ids=[4, 9, 2, 30, 31])
    return Prob(d)


def model_op(ctx, p, model, op, spec=False):
    kw = kw_of(p)
    if op == 'fitA':
        ctx.call(model.fit_mle, np.array(p.params('a')), maxiter=0,
                 print_res=False, **kw)
        return state(model)
    if op == 'fitB':
        w = p.row_weights(est.weight_menu(p.nunits())[1])
        ctx.call(model.fit_mle, np.array(p.params('d')), maxiter=3,
                 ridge=0.7, weights=w, print_res=False,
                 constrained_pos=[p.nparams() - 1], **kw)
        return state(model)
    if op == 'fitC':
        # other options for the same model: other draws for mixed logit
        kw2 = dict(kw, seed=4) if kw else {}
        ctx.call(model.fit_mle, np.array(p.params('a')), maxiter=0,
                 print_res=False, **kw2)
        return state(model)
    if op == 'fitD':
        kw2 = dict(kw, num_draws=kw['num_draws'] + 2) if kw else {}
        ctx.call(model.fit_mle, np.array(p.params('b')), maxiter=1,
                 print_res=False, **kw2)
        return state(model)
    if op == 'edit':
        # overwrite columns of the model's own dataframe in place, predict,
        # put them back
        df = model.data if not spec else model.data.copy()
        keep = dict((v, np.array(df[v].values, copy=True))
                    for v in ('x', 'y'))
        for v in keep:
            df[v] = keep[v][::-1] * 1.5 - 0.2
        try:
            return dict(v=freeze(ctx.call(
                model.predict, df,
                param_list=p.param_list(p.params('b')), **kw)))
        finally:
            for v in keep:
                df[v] = keep[v]
    if op == 'own':
        return dict(v=freeze(ctx.call(
            model.predict, model.data,
            param_list=p.param_list(p.params('b')), **kw)))
    if op == 'like':
        # data of the same size and layout with other values
        d = dict(p.d, valid=[k + 4 for k in range(p.n)])
        return dict(v=freeze(ctx.call(
            model.predict, Prob(d).df(),
            param_list=p.param_list(p.params('b')), **kw)))
    if op == 'reseed':
        kw2 = dict(kw, seed=5) if kw else {}
        return dict(v=freeze(ctx.call(
            model.predict, other(p).df(),
            param_list=p.param_list(p.params('b')), **kw2)))
    if op == 'point':
        r = ctx.call(model.fit_mle, np.array(p.params('d')), maxiter=4,
                     just_point=True, print_res=False, **kw)
        return dict(x=freeze(np.array(r['x'])), fun=freeze(float(r['fun'])))
    if op == 'predict':
        try:
            return dict(v=freeze(ctx.call(model.predict, other(p).df(),
                                          choice_col=gen.CH, **kw)))
        except AttributeError:
            return dict(v=('v', 'not fitted'))
    if op == 'given':
        return dict(v=freeze(ctx.call(
            model.predict, other(p).df(),
            param_list=p.param_list(p.params('b')), **kw)))
    if op == 'panel':
        try:
            return dict(v=freeze(ctx.call(model.panel_predict, other(p).df(),
                                          5, seed=3)))
        except AttributeError:
            return dict(v=('v', 'not fitted'))
    if op == 'report':
        try:
            ci = ctx.call(model.conf_int, return_df=True)
            model.print_summaries()
            model.get_statsmodels_summary()
            return dict(v=freeze(ci))
        except (AttributeError, NotImplementedError):
            return dict(v=('v', 'not fitted'))
    raise KeyError(op)


FITS = ('fitA', 'fitB', 'fitC', 'fitD')


def expected_after(hist):
    """The history that determines an operation's answer: the last complete
    fit before it, then the operation itself."""
    op = hist[-1]
    if op in FITS + ('point', 'given', 'edit', 'own', 'like', 'reseed'):
        return (op,)
    fits = [o for o in hist[:-1] if o in FITS]
    return (fits[-1], op) if fits else (op,)


def model_ops(p):
    ops = ['fitA', 'fitB', 'point', 'predict', 'given', 'report']
    if p.type == 'Mixed Logit':
        ops.append('panel')
    return ops


_CACHE = {}


def spec_result(ctx, p, key, scn):
    k = (repr(scn.get('model')), repr(scn.get('pat')), key)
    if k not in _CACHE:
        m = p.model()
        for op in key:
            out = model_op(ctx, p, m, op, True)
        _CACHE[k] = out
    return _CACHE[k]


def run_model(scn, ctx):
    p = Prob(scn)
    model = ctx.call(p.model)
    hist = []
    held = []
    stored = None
    for op in scn['ops']:
        hist.append(op)
        got = model_op(ctx, p, model, op)
        want = spec_result(ctx, p, expected_after(hist), scn)
        ctx.check(sorted(got) == sorted(want), 'result fields after %s' %
                  hist, sorted(got), sorted(want))
        for f in want:
            ctx.check(alike(got[f], want[f]), '%s after %s' % (f, hist),
                      got[f], want[f])
        if op in FITS:
            stored = got
            held = [(f, getattr(model, f), got[f]) for f in FIELDS
                    if hasattr(model, f)] + held[:60]
        elif stored is not None:
            now = state(model)
            for f in stored:
                ctx.check(f in now and alike(now[f], stored[f]),
                          'stored %s changed by %s' % (f, op), now.get(f),
                          stored[f])
        else:
            ctx.check(not hasattr(model, 'params'), 'estimates stored '
                      'although the model was never fitted')
        for f, obj, s in held:
            ctx.check(alike(freeze(obj), s), '%s handed out earlier was '
                      'changed by %s' % (f, hist))
        ctx.see(*[x for x in [got.get('v', ('v', 0))]
                  if not isinstance(x[-1], np.ndarray)])
        for f in ('params', 'x'):
            if f in got:
                ctx.see(got[f][-1])


def gen_model(tier):
    full = tier == 'thorough'
    pat = medium('mix')
    for cfg in med_configs(4):
        if not full and cfg['type'] not in ('MNL', 'Mixed Logit',
                                            'Nested Logit') and \
                cfg.get('iref') is None and cfg['type'] != 'Asym':
            depth = 2
        else:
            depth = 3
        s = dict(pat=pat, model=cfg, spec='xy', mix=mixids(len(pat), 'own'))
        ops = model_ops(Prob(s))
        for n in (2, 3) if depth == 3 else (2,):
            for h in product(ops, repeat=n):
                if n == 3 and h[0] in ('given', 'report', 'predict',
                                       'panel') and not full:
                    continue
                yield dict(s, ops=list(h))
        if full:
            for h in product(ops, repeat=4):
                if h[0] in ('fitA', 'fitB') and h[1] != h[0] and \
                        h[2] != h[1]:
                    yield dict(s, ops=list(h))


def gen_again(tier):
    """Refits, repeated predictions and edited data: every pair, and for the
    thorough tier every triple."""
    pat = medium('mix')
    ops = ['fitA', 'fitC', 'fitD', 'given', 'predict', 'reseed', 'like',
           'own', 'edit']
    for cfg in med_configs(4):
        s = dict(pat=pat, model=cfg, spec='xy', mix=mixids(len(pat), 'own'))
        use = [o for o in ops if cfg['type'] == 'Mixed Logit' or
               o not in ('fitC', 'reseed')]
        for n in (2, 3) if tier == 'thorough' else (2,):
            for h in product(use, repeat=n):
                yield dict(s, ops=list(h))
        if tier != 'thorough':
            yield dict(s, ops=['own', 'edit', 'own', 'like', 'edit', 'own'])
            yield dict(s, ops=['fitA', 'edit', 'predict', 'fitD', 'edit',
                               'own', 'predict'])
            if cfg['type'] == 'Mixed Logit':
                for h in product(['fitA', 'fitC', 'fitD'], repeat=3):
                    yield dict(s, ops=list(h) + ['predict', 'panel'])


def run_shared(scn, ctx):
    """Two models built from the same dataframe, specification and name
    objects, used alternately."""
    ps = [Prob(dict(pat=scn['pat'], spec='xy', model=m,
                    mix=mixids(len(scn['pat']), 'own')))
          for m in scn['models']]
    df = ps[0].df()
    spec, names = ps[0].spec_dict(), ps[0].names_dict()
    import pylogit as pl
    ms = []
    for p in ps:
        kw = p.model_kwargs()
        kw['names'] = names
        ms.append(ctx.call(pl.create_choice_model, df, gen.ALT, gen.OBS,
                           gen.CH, spec, p.type, **kw))
    hist = [[], []]
    for k, op in scn['ops']:
        hist[k].append(op)
        got = model_op(ctx, ps[k], ms[k], op)
        want = spec_result(ctx, ps[k], expected_after(hist[k]),
                           dict(pat=scn['pat'], model=scn['models'][k]))
        for f in want:
            ctx.check(f in got and alike(got[f], want[f]),
                      'model %d: %s in history %s' % (k, f, scn['ops']),
                      got.get(f), want[f])
        if 'params' in got:
            ctx.see(got['params'][-1])


def gen_shared(tier):
    reps = [{'type': 'MNL'}, {'type': 'Asym', 'sref': 1, 'iref': 2},
            {'type': 'Cloglog', 'iref': 1}, {'type': 'Scobit', 'iref': 0},
            {'type': 'Uneven', 'iref': None},
            {'type': 'Nested Logit', 'nests': [[1, 3], [0, 2]]},
            {'type': 'Mixed Logit', 'mixing': ['b_y', 'b_x'], 'draws': 3}]
    pat = medium('mix')
    hists = [[[0, 'fitA'], [1, 'fitA'], [0, 'predict'], [1, 'predict'],
              [0, 'report']],
             [[0, 'fitB'], [1, 'point'], [0, 'report'], [1, 'given'],
              [0, 'predict']],
             [[1, 'given'], [0, 'fitA'], [1, 'fitB'], [0, 'fitB'],
              [1, 'report'], [1, 'predict']]]
    for a, b in product(reps, repeat=2):
        for h in hists:
            yield dict(pat=pat, models=[a, b], ops=h)


FAMILIES = [
    Family('estimator-walks', gen_walk, run_walk,
           'every word of 3 calculations over {7 calculations x 2 parameter '
           'vectors} (de Bruijn history of 2744 operations) on 1 (thorough 3) datasets x '
           'configurations; words of 2 with weights, ridge, fixed '
           'parameters', 10),
    Family('parameter-buffer', gen_buffer, run_buffer,
           'one parameter array overwritten in place: every word of 2 over '
           '6 calculations x 6-7 parameter vectors that share entries, sums '
           'or norms or differ by 3e-7', 10),
    Family('estimator-pairs-fresh', gen_fresh, run_fresh,
           'every history of 2 calculations, each on a fresh estimator', 5),
    Family('two-estimators', gen_pair, run_pair,
           'every ordered pair of model types, same or different data, every '
           'word of 2 over both', 5),
    Family('model-histories', gen_model, run_model,
           'every history of 2 and 3 operations over {two fits, point fit, '
           'predict, predict with given parameters, reports, panel predict} '
           '(thorough: 4, first a fit)', 20),
    Family('refits-and-edits', gen_again, run_model,
           'every pair (thorough: triple) over {refit with other draws or '
           'another start, predictions with another seed, on other data of '
           'the same size, on the model\'s own dataframe, on its own '
           'dataframe edited in place}', 20),
    Family('shared-arguments', gen_shared, run_shared,
           'every ordered pair of model types built from the same '
           'dataframe, specification and names x 3 interleavings', 5),
]
ASSUMPTIONS = ['mixed logit is run with a fixed seed']
