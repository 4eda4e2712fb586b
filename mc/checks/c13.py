"""C13: reported estimation results are mutually consistent."""
import contextlib
import io
import math
from itertools import combinations

import numpy as np
import pandas as pd

import est
import gen
import ref
from core import Family
from gen import Prob
from checks.c06 import medium, med_configs, mixids, seed_draws

nan = float('nan')


def default_names(p):
    n, s, c, b, g = p.sizes()
    names = []
    if n:
        names += p.nest_names()
    names += ['Shape_%d' % (k + 1) for k in range(s)]
    names += ['Outside_ASC_%d' % (k + 1) for k in range(c)]
    coef = p.coef_names(default=True)
    names += coef
    if g:
        user = p.coef_names()
        names += ['Sigma ' + coef[user.index(m)] for m in p.cfg['mixing']]
    return names


def build(p, defaults):
    if not defaults:
        return p.model(), p.param_names()
    kw = dict(names=None)
    if p.type in ('Asym', 'Scobit', 'Uneven'):
        kw['shape_names'] = None
    if p.cfg.get('iref') is not None:
        kw['intercept_names'] = None
    if p.type == 'Mixed Logit':
        user, coef = p.coef_names(), p.coef_names(default=True)
        kw['mixing_vars'] = [coef[user.index(m)] for m in p.cfg['mixing']]
    return p.model(**kw), default_names(p)


def series(ctx, s, names, what):
    ctx.check(isinstance(s, pd.Series), what + ' is not a Series', type(s))
    ctx.eq(s.index.tolist(), names, 'labels of ' + what)
    return [float(v) for v in s.values]


def frame(ctx, f, names, what):
    ctx.check(isinstance(f, pd.DataFrame), what + ' is not a DataFrame')
    ctx.eq(f.index.tolist(), names, 'rows of ' + what)
    ctx.eq(f.columns.tolist(), names, 'columns of ' + what)
    return f.values.tolist()


def run(scn, ctx):
    p = Prob(scn)
    model, names = build(p, scn.get('defaults'))
    ctx.calls += 1
    K = p.nparams()
    kw, draws = {}, None
    if p.type == 'Mixed Logit':
        kw = dict(num_draws=p.cfg['draws'], seed=17)
        draws = seed_draws(p, 17)
    w = est.weight_menu(p.nunits())[scn['w']]
    ridge = scn.get('ridge')
    con = scn.get('con')
    fixed = set(con or [])
    if p.type == 'Nested Logit':
        fixed |= set(k for k, nest in enumerate(p.cfg['nests'])
                     if len(nest) == 1)
    said = io.StringIO()
    with contextlib.redirect_stdout(said):
        ctx.call(model.fit_mle, np.array(p.params(scn['par'])),
                 maxiter=scn['iters'], print_res=bool(scn['iters']),
                 ridge=ridge, constrained_pos=con,
                 weights=p.row_weights(w), **kw)
    said = said.getvalue()
    ctx.check(bool(scn['iters']) or not said.strip(),
              'output in spite of print_res=False', said)
    ctx.eq(model.optimization_method, 'BFGS', 'recorded method')
    ctx.eq(model.ridge_param, ridge, 'recorded ridge')

    # ------------------------------------------------ parameters and labels
    x = series(ctx, model.params, names, 'params')
    n, s, c, b, g = p.sizes()
    if scn['iters'] == 0:
        ctx.close(x, p.params(scn['par']), 'params')
    blocks = [('nests', 0, n), ('shapes', n, s), ('intercepts', n + s, c),
              ('coefs', n + s + c, b + g)]
    for attr, lo, size in blocks:
        v = getattr(model, attr)
        if size == 0:
            ctx.check(v is None, attr + ' should be None', v)
        else:
            ctx.close(series(ctx, v, names[lo:lo + size], attr),
                      x[lo:lo + size], attr)
    # --------------------------------------------------- likelihood, counts
    ll = ref.loglik(p, x, w, ridge, draws).real
    null = ref.loglik(p, [0.0] * K, w, ridge, draws).real
    T = dict(rtol=1e-7, atol=1e-7)
    ctx.close(float(model.log_likelihood), ll, 'log_likelihood', **T)
    ctx.close(float(model.llf), ll, 'llf', **T)
    ctx.close(float(model.null_log_likelihood), null, 'null LL', **T)
    start = ref.loglik(p, p.params(scn['par']), w, ridge, draws).real
    for key, v in (('Log-likelihood at zero:', null),
                   ('Initial Log-likelihood:', start),
                   ('Final log-likelihood:', ll)):
        if key in said:
            told = float(said.split(key)[1].split()[0].replace(',', ''))
            ctx.check(abs(told - v) < 2e-4, 'printed ' + key, told, v)
    ctx.close(float(model.rho_squared), 1 - ll / null, 'rho_squared', **T)
    ctx.close(float(model.rho_bar_squared), 1 - (ll - K) / null,
              'rho_bar_squared', **T)
    ctx.close(float(model.aic), -2 * ll + 2 * K, 'aic', **T)
    ctx.close(float(model.bic), -2 * ll + math.log(p.n) * K, 'bic', **T)
    ctx.eq(int(model.nobs), p.n, 'nobs')
    ctx.eq(int(model.df_model), K, 'df_model')
    ctx.eq(int(model.df_resid), p.n - K, 'df_resid')
    # --------------------------------------- fitted probabilities, residuals
    if p.type == 'Mixed Logit':
        k = ref.kernel_probs(p, x, draws)
        long_p = [[k[d][r].real for d in range(len(k))]
                  for r in range(len(p.rows))]
    else:
        long_p = [[v.real] for v in ref.probs(p, x)]
    D = len(long_p[0])
    res = [[p.choice[r] - v for v in long_p[r]] for r in range(len(p.rows))]
    chosen = [[sum(long_p[r][d] for r, (i, a) in enumerate(p.rows)
                   if i == o and p.choice[r]) for d in range(D)]
              for o in p.obs_order]
    chi = [[sum(res[r][d] ** 2 / long_p[r][d] for r, (i, a) in
                enumerate(p.rows) if i == o) for d in range(D)]
           for o in p.obs_order]
    if p.type != 'Mixed Logit':
        long_p, res, chosen, chi = ([v[0] for v in t] for t in
                                    (long_p, res, chosen, chi))
    P = dict(rtol=1e-6, atol=1e-9)
    ctx.close(np.asarray(model.long_fitted_probs), long_p, 'long_fitted', **P)
    ctx.close(np.asarray(model.fitted_probs), chosen, 'fitted_probs', **P)
    ctx.close(np.asarray(model.long_residuals), res, 'residuals', **P)
    ctx.close(np.asarray(model.ind_chi_squareds), chi, 'chi squares', **P)
    ctx.close(float(model.chi_square), float(np.sum(chi)), 'chi_square', **P)
    # ---------------------------------------------------------- covariances
    H = frame(ctx, model.hessian, names, 'hessian')
    F = frame(ctx, model.fisher_information, names, 'fisher_information')
    V = frame(ctx, model.cov, names, 'cov')
    R = frame(ctx, model.robust_cov, names, 'robust_cov')
    grad = series(ctx, model.gradient, names, 'gradient')
    if not (p.type == 'Nested Logit' and ridge) and not est.at_kink(p, x):
        ctx.close(grad, ref.grad(p, x, w, ridge, draws), 'gradient',
                  rtol=1e-6, atol=1e-6)
    inv = ref.inverse([[-v for v in row] for row in H])
    if inv is not None:
        sc = max(abs(v) for r_ in inv for v in r_)
        ctx.close(V, inv, 'cov is not the inverse of minus the Hessian',
                  rtol=1e-5, atol=1e-8 * max(1, sc))
        sand = ref.matmul(inv, ref.matmul(F, inv))
        sc = max([1.0] + [abs(v) for r_ in sand for v in r_])
        ctx.close(R, sand, 'robust_cov is not the sandwich', rtol=1e-5,
                  atol=1e-7 * sc)

    def root(v):
        return math.sqrt(v) if v >= 0 else nan

    se = [nan if k in fixed else root(V[k][k]) for k in range(K)]
    rse = [nan if k in fixed else root(R[k][k]) for k in range(K)]

    def ratio(a, b_):
        return a / b_ if b_ == b_ and b_ != 0 else nan

    t = [ratio(a, b_) for a, b_ in zip(x, se)]
    rt = [ratio(a, b_) for a, b_ in zip(x, rse)]
    pv = [2 * ref.norm_sf(abs(v)) if v == v else nan for v in t]
    rp = [2 * ref.norm_sf(abs(v)) if v == v else nan for v in rt]
    S = dict(rtol=1e-7, atol=1e-12)
    cols = []
    for attr, want in (('params', x), ('standard_errors', se),
                       ('tvalues', t), ('pvalues', pv),
                       ('robust_std_errs', rse), ('robust_t_stats', rt),
                       ('robust_p_vals', rp)):
        got = series(ctx, getattr(model, attr), names, attr)
        ctx.close(got, want, attr, **S)
        cols.append((getattr(model, attr).name, got))
    ctx.close(series(ctx, model.bse, names, 'bse'), se, 'bse', **S)
    # ------------------------------------------------------------ summaries
    ctx.eq(model.summary.index.tolist(), names, 'summary rows')
    ctx.eq(model.summary.columns.tolist(), [c_[0] for c_ in cols],
           'summary columns')
    for j, (cname, want) in enumerate(cols):
        ctx.close([float(v) for v in model.summary.iloc[:, j].values], want,
                  'summary column ' + cname)
    fs = model.fit_summary
    want = {'Number of Parameters': K, 'Number of Observations': p.n,
            'Null Log-Likelihood': null, 'Fitted Log-Likelihood': ll,
            'Rho-Squared': 1 - ll / null,
            'Rho-Bar-Squared': 1 - (ll - K) / null}
    for key, v in want.items():
        ctx.close(float(fs.loc[key]), float(v), 'fit_summary ' + key, **T)
    ctx.eq(fs.loc['Estimation Message'], model.estimation_message, 'message')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ctx.call(model.print_summaries)
    text = out.getvalue()
    ctx.check(str(model.summary) in text and str(model.fit_summary) in text,
              'print_summaries does not print the summaries', text)
    sm = ctx.call(model.get_statsmodels_summary, alpha=0.1)
    table = sm.tables[1].data
    ctx.eq([r_[0].strip() for r_ in table[1:]], names, 'statsmodels labels')
    z = 1.6448536269514722
    for k, row in enumerate(table[1:]):
        vals = [x[k], se[k], t[k], pv[k], x[k] - z * se[k],
                x[k] + z * se[k]]
        got = [float(v) for v in row[1:]]
        for a, b_ in zip(got, vals):
            ctx.check((a != a and b_ != b_) or
                      abs(a - b_) <= 6e-3 * max(1.0, abs(b_)),
                      'statsmodels summary of %s' % names[k], got, vals)
    titled = ctx.call(model.get_statsmodels_summary, title='Own title')
    ctx.eq(titled.tables[0].title, 'Own title', 'statsmodels title')
    head = dict()
    for row in sm.tables[0].data:
        head[str(row[0]).strip()] = str(row[1]).strip()
        head[str(row[2]).strip()] = str(row[3]).strip()
    for key, v, tol in (('No. Observations:', p.n, 0),
                        ('Df Model:', K, 0), ('Df Residuals:', p.n - K, 0),
                        ('Log-Likelihood:', ll, 1e-3),
                        ('LL-Null:', null, 1e-3),
                        ('Pseudo R-squ.:', 1 - ll / null, 1e-3),
                        ('Pseudo R-bar-squ.:', 1 - (ll - K) / null, 1e-3),
                        ('AIC:', -2 * ll + 2 * K, 1e-3),
                        ('BIC:', -2 * ll + math.log(p.n) * K, 1e-3)):
        ctx.check(key in head and
                  abs(float(head[key].replace(',', '')) - v) <= tol,
                  'statsmodels header ' + key, head.get(key), v)
    # ----------------------------------------------------------- intervals
    for alpha, z in ((0.05, 1.959963984540054), (0.1, 1.6448536269514722),
                     (0.5, 0.6744897501960817), (0.01, 2.5758293035489004),
                     (0.9, 0.12566134685507416)):
        full = [[a - z * e, a + z * e] for a, e in zip(x, se)]
        ctx.close(ctx.call(model.conf_int, alpha=alpha), full,
                  'conf_int(%s)' % alpha, rtol=1e-8, atol=1e-10)
        df = ctx.call(model.conf_int, alpha=alpha, return_df=True)
        ctx.eq(df.index.tolist(), names, 'conf_int labels')
        ctx.eq(df.columns.tolist(), ['lower', 'upper'], 'conf_int columns')
        ctx.close(df.values, full, 'conf_int df', rtol=1e-8, atol=1e-10)
    full = [[a - 1.959963984540054 * e, a + 1.959963984540054 * e]
            for a, e in zip(x, se)]
    sels = [list(q) for k in (1, 2) for q in combinations(range(K), k)]
    sels += [list(range(K))[::-1]] + [[q[1], q[0]] for q in sels
                                      if len(q) == 2]
    for sel in sels:
        got = ctx.call(model.conf_int, coefs=[names[k] for k in sel],
                       return_df=True)
        ctx.eq(got.index.tolist(), [names[k] for k in sel], 'selected')
        ctx.close(got.values, [full[k] for k in sel], 'selected intervals',
                  rtol=1e-8, atol=1e-10)
        ctx.close(ctx.call(model.conf_int, coefs=[names[k] for k in sel]),
                  [full[k] for k in sel], 'selected interval array',
                  rtol=1e-8, atol=1e-10)
    ctx.see(x, ll, se)


def gen_all(tier):
    full = tier == 'thorough'
    for kind in ('obs30', 'mix', 'alts12b', 'obs300'):
        pat = medium(kind)
        J = max(max(s) for s, _ in pat) + 1
        for cfg in med_configs(J):
            for spec in ('xy', 'ixg'):
                c = dict(cfg)
                if spec == 'ixg':
                    if c['type'] == 'Mixed Logit':
                        c['mixing'] = ['b_y', 'b_x_[0, 1]']
                    elif c['type'] != 'MNL' and not full:
                        continue
                mks = ('own', 'panel') if c['type'] == 'Mixed Logit' else \
                    ('own',)
                for mk in mks:
                    s = dict(pat=pat, model=c, spec=spec,
                             mix=mixids(len(pat), mk))
                    K = Prob(s).nparams()
                    cons = [None, [0], [K - 1], [K - 1, 0]]
                    if kind == 'mix' and spec == 'xy':
                        # identical observations
                        yield dict(s, pat=pat + pat, con=None, ridge=None,
                                   valid=list(range(len(pat))) * 2,
                                   mix=mixids(2 * len(pat), mk), iters=2,
                                   par='d', w=0, defaults=0)
                    if kind in ('alts12b', 'obs300'):
                        if spec == 'xy':
                            yield dict(s, con=[K - 1], ridge=0.7, iters=0,
                                       par='d', w=1, defaults=0)
                            yield dict(s, con=None, ridge=0.7, iters=0,
                                       par='d', w=0, defaults=1)
                        continue
                    if full:
                        cons = [None] + [list(q) for k in range(1, K)
                                         for q in combinations(range(K), k)]
                        cons = cons[:40]
                    for k, con in enumerate(cons):
                        for ridge in (None, 0.7):
                            for iters in (0, 3):
                                if iters and ridge is None and \
                                        c['type'] != 'MNL':
                                    continue
                                yield dict(
                                    s, con=con, ridge=ridge, iters=iters,
                                    par='d' if iters else 'a',
                                    w=k % 2, defaults=0)
                    yield dict(s, con=None, ridge=None, iters=0, par='a',
                               w=0, defaults=1)
                    for par, con in (('half', [0]), ('flah', [1]),
                                     ('half', None), ('zero', [K - 1])):
                        if par == 'zero' and c['type'] != 'MNL':
                            continue
                        yield dict(s, con=con, ridge=None, iters=0, par=par,
                                   w=0, defaults=0)
                    yield dict(s, con=[1], ridge=0.7, iters=0, par='d',
                               w=1, defaults=1)


FAMILIES = [
    Family('reports', gen_all, run,
           '2 datasets x 12 configurations (all seven types) x sets of fixed '
           'parameters (thorough: up to 39 subsets) x ridge x weights x user '
           'or default names x 5 confidence levels x all selections of one '
           'or two coefficients', 20),
]
ASSUMPTIONS = [
    'covariance is compared with the inverse computed by plain Gauss-Jordan',
    'nested and mixed logit report a placeholder information matrix; their '
    'robust quantities are checked only as functions of it',
]
