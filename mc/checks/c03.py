"""C03: design columns implement the specification, with the right names."""
import math
from collections import OrderedDict
from itertools import permutations, product, combinations

import numpy as np
import pandas as pd

from core import Family
from gen import Prob, ALT, OBS, CH, val, ordered_partitions
from checks.c06 import medium

LABELS = [[1, 2, 3], [-7, 0, 4], [0, 1, 2], [10, 11, 300]]

# alternatives by position; groups as lists
KINDS3 = ['all_same', 'all_diff', [0], [2], [0, 1], [1, 0], [2, 1, 0],
          [[0, 1]], [[0, 1], 2], [2, [0, 1]], [[0], [1], [2]], [[2, 0]],
          [[1, 2, 0]], [1, [2]], [[0, 2], [1]], [[0, 1], [1, 2]],
          [0, [0, 1]], [[0, 1], [0, 1]], [[2, 1], 1, 1]]
PATS = [[[[2, 0, 1], 1], [[0, 2], 2]], [[[0, 1, 2], 0], [[1], 1],
                                        [[2, 1], 2]]]


def run(scn, ctx):
    from pylogit import choice_tools as ct
    p = Prob(scn)
    df = p.df(index=scn.get('index'))
    if scn.get('dtype') == 'float':
        df[ALT] = df[ALT].astype(float)
    elif scn.get('dtype') == 'small':
        df[ALT] = df[ALT].astype('int16')
    spec = p.spec_dict()
    want = p.design()
    default = scn.get('names') == 'none'
    kw = {}
    if not default:
        items = list(p.names_dict().items())
        if scn.get('names') == 'perm':
            items = [items[k] for k in scn['nperm']]
        kw['names'] = OrderedDict(items)
    design, names = ctx.call(ct.create_design_matrix, df, spec, ALT, **kw)
    ctx.close(np.asarray(design, dtype=float), want, 'design matrix',
              rtol=1e-12, atol=0)
    wn = p.coef_names(default=default)
    if default and scn.get('dtype') == 'float':
        ctx.eq(len(names), len(wn), 'number of names')
    else:
        ctx.eq([str(x) for x in names], wn, 'coefficient names')
    ctx.see(design, [str(x) for x in names])
    if scn.get('model'):
        mk = {} if default else dict(names=kw['names'])
        if scn.get('noicpt') and 'intercept' in df:
            df = df.drop(columns=['intercept'])
        m = ctx.call(lambda: p.model(df, **(dict(names=None) if default
                                            else mk)))
        ctx.close(np.asarray(m.design, dtype=float), want, 'model design',
                  rtol=1e-12, atol=0)
        ctx.eq([str(x) for x in m.ind_var_names], wn, 'model names')


def gen_specs(tier):
    for pat in PATS:
        for k1 in KINDS3:
            for k2 in [None] + KINDS3:
                spec = [['x', k1]] + ([['y', k2]] if k2 else [])
                for labels in (LABELS if tier == 'thorough' else
                               LABELS[1:4:2]):
                    for names in ('none', 'given', 'perm'):
                        if names == 'perm' and not k2:
                            continue
                        yield dict(pat=pat, spec_list=spec, alts=labels,
                                   names=names, nperm=[1, 0])


def gen_names(tier):
    """Three variables, every order of the name dictionary."""
    pat = PATS[0]
    trips = [['intercept', [0, 1]], ['x', 'all_diff'], ['y', [[0, 1], 2]],
             ['z', 'all_same']]
    for comb in permutations(trips, 3):
        for perm in permutations(range(3)):
            for labels in LABELS:
                yield dict(pat=pat, spec_list=[list(t) for t in comb],
                           alts=labels, names='perm', nperm=list(perm),
                           model={'type': 'MNL'},
                           noicpt=labels is not LABELS[0])


def gen_layout(tier):
    spec = [['y', [[0, 2], 1]], ['x', 'all_diff'], ['z', 'all_same']]
    pat = [[[2, 0, 1], 1], [[0, 2], 2], [[1], 1]]
    for order in permutations(range(6)):
        if tier == 'quick' and order[0] > 2:
            continue
        yield dict(pat=pat, spec_list=spec, alts=[-7, 0, 4],
                   order=list(order), names='given',
                   vals='int' if order[1] % 2 else 'real')
    for labels in LABELS:
        for vals in ('real', 'int', 'zero', 'big'):
            for dt in (None, 'float', 'small'):
                for ix in (None, 'rev', 'dup', 'str'):
                    for names in ('none', 'given'):
                        yield dict(pat=pat, spec_list=spec, alts=labels,
                                   vals=vals, dtype=dt, index=ix,
                                   names=names)


def gen_large(tier):
    """More than 256 rows or 128 alternatives, groups that span them."""
    for kind in ('obs300', 'alts140', 'alts12b'):
        pat = medium(kind)
        J = max(max(s) for s, _ in pat) + 1
        groups = [list(range(0, J, 3)), J - 2, list(range(1, J, 3))]
        for spec in ([['y', groups], ['x', 'all_diff'], ['z', 'all_same']],
                     [['x', 'all_same'], ['z', [J - 1, 0]], ['y', 'all_same']]):
            for labels in ([a + 1 for a in range(J)],
                           [7 * a - 300 for a in range(J)],
                           [20000001 + a for a in range(J)]):
                for names in ('none', 'given'):
                    for order in (None, 'alt', 'rev'):
                        yield dict(pat=pat, spec_list=spec, alts=labels,
                                   names=names, order=order)


def run_labels(scn, ctx):
    """Labels reported after estimation name the columns they belong to."""
    p = Prob(scn)
    df = p.df()
    items = list(p.names_dict().items())
    names = OrderedDict([items[k] for k in scn['nperm']])
    m = ctx.call(lambda: p.model(df, names=names))
    kw = dict(num_draws=2, seed=3) if p.type == 'Mixed Logit' else {}
    params = p.params('a')
    ctx.call(m.fit_mle, np.array(params), maxiter=0, print_res=False,
             ridge=0.1, **kw)
    ctx.eq(m.params.index.tolist(), p.param_names(), 'parameter labels')
    n, s, c, b, g = p.sizes()
    ctx.eq(m.coefs.index.tolist(), p.param_names()[n + s + c:],
           'coefficient labels')
    ctx.close(m.coefs.values, params[n + s + c:], 'coefficients')
    for attr, nm, lo, hi in (('nests', p.nest_names() if n else None, 0, n),
                             ('shapes', p.shape_names(), n, n + s),
                             ('intercepts', p.intercept_names(), n + s,
                              n + s + c)):
        got = getattr(m, attr)
        if lo == hi:
            ctx.check(got is None, attr + ' should be None')
        else:
            ctx.eq(got.index.tolist(), nm, attr + ' labels')
            ctx.close(got.values, params[lo:hi], attr)
    ctx.see(m.params.index.tolist())


def gen_labels(tier):
    pat = [[[2, 0, 1], 1], [[0, 2], 2], [[0, 1, 2], 0], [[1, 2], 1],
           [[1, 0, 2], 2], [[0, 1], 0]]
    cfgs = [{'type': 'MNL'}, {'type': 'Asym', 'sref': 1, 'iref': 2},
            {'type': 'Asym', 'sref': 2, 'iref': None},
            {'type': 'Cloglog', 'iref': 0}, {'type': 'Scobit', 'iref': 1},
            {'type': 'Uneven', 'iref': 2},
            {'type': 'Nested Logit', 'nests': [[2, 0], [1]]},
            {'type': 'Nested Logit', 'nests': [[1], [0, 2]]},
            {'type': 'Mixed Logit', 'mixing': ['b_y', 'b_x_[0, 1]'],
             'draws': 2}]
    for cfg in cfgs:
        for comb in permutations([['x', [[0, 1], 2]], ['y', 'all_same'],
                                  ['z', [1]]]):
            for perm in permutations(range(3)):
                yield dict(pat=pat, model=cfg, alts=[-7, 0, 4],
                           spec_list=[list(t) for t in comb],
                           nperm=list(perm))


def run_awkward(scn, ctx):
    """Coefficient names are free: however they look, the model predicts and
    estimates the same, and its results carry exactly these names."""
    p = Prob(scn)
    df = p.df()
    plain = p.coef_names()
    new = dict(zip(plain, scn['given']))
    names = OrderedDict((v, new[x] if isinstance(x, str) else
                         [new[y] for y in x])
                        for v, x in p.names_dict().items())
    mixing = p.cfg.get('mixing')
    kw = dict(mixing_vars=[new[x] for x in mixing]) if mixing else {}
    base = ctx.call(p.model, df)
    m = ctx.call(lambda: p.model(df, names=names, **kw))
    ctx.eq(list(m.ind_var_names), [new[x] for x in plain], 'names')
    params = np.array(p.params('a'))
    n, s, c, b, g = p.sizes()
    pl_ = [params[n + s + c:], params[n + s:n + s + c] if c else None,
           params[n:n + s] if s else None, params[:n] if n else None]
    dk = dict(num_draws=2, seed=3) if mixing else {}
    want = p.param_names()
    want = [new.get(x, x) for x in want[:len(want) - g]] + \
        ['Sigma ' + new[x] for x in mixing or []]
    for step in scn['steps']:
        if step == 'p':
            ctx.close(ctx.call(m.predict, df, param_list=pl_, **dk),
                      ctx.call(base.predict, df, param_list=pl_, **dk),
                      'predictions', rtol=1e-12, atol=0)
        else:
            for x in (base, m):
                ctx.call(x.fit_mle, np.array(params), maxiter=0,
                         print_res=False, ridge=0.1, **dk)
            ctx.eq(m.params.index.tolist(), want, 'parameter labels')
            ctx.eq(m.coefs.index.tolist(), want[n + s + c:], 'coefficients')
            ctx.close(m.params.values, base.params.values, 'parameters',
                      rtol=1e-12, atol=0)
            ctx.close(m.standard_errors.values, base.standard_errors.values,
                      'standard errors', rtol=1e-9, atol=1e-12)
            ctx.eq(m.summary.index.tolist(), want, 'labels of the summary')
    ctx.see(want, m.design)


def gen_awkward(tier):
    pat = [[[2, 0, 1], 1], [[0, 2], 2], [[0, 1, 2], 0], [[1, 2], 1],
           [[1, 0, 2], 2], [[0, 1], 0]]
    spec = [['x', [[0, 1], 2]], ['y', 'all_same'], ['z', [1]]]
    for cfg in ({'type': 'MNL'}, {'type': 'Asym', 'sref': 1, 'iref': 2},
                {'type': 'Cloglog', 'iref': 0}, {'type': 'Scobit', 'iref': 1},
                {'type': 'Uneven', 'iref': None},
                {'type': 'Nested Logit', 'nests': [[2, 0], [1]]},
                {'type': 'Mixed Logit', 'mixing': ['b_y'], 'draws': 2},
                {'type': 'Mixed Logit', 'mixing': ['b_y', 'b_x_[0, 1]'],
                 'draws': 2}):
        for given in (['Sigma a', 'b', 'c', 'd'], ['a', 'b', 'c', 'Sigma d'],
                      ['a', 'Sigma b', 'Sigma c', 'd'],
                      ['Sigma of a', 'b', 'the Sigma c', 'd'],
                      ['shape', 'Shape_1', 'Nest_Param_1', 'Outside_ASC_1'],
                      [' a', 'a ', 'A', 'a'], ['1', '2', '0', '-1'],
                      ['x', 'y', 'z', 'alt_id'], ['\u03b2', 'a/b', 'c%d', '{}'],
                      ['a' * 80, 'a' * 79 + 'b', 'mean', 'Hogit']):
            for steps in ('pfpf', 'ffp'):
                yield dict(pat=pat, model=cfg, spec_list=spec, given=given,
                           alts=[-7, 0, 4], steps=steps)


TYPES = ['float64', 'int64', 'bool', 'int8', 'uint8', 'uint64', 'float32']


def typed(kind, k, i, a):
    base = val('real', k, i, a)
    if kind == 'bool':
        return bool(base > 0)
    if kind.startswith('uint'):
        return int(abs(base) * 60) % 256
    if kind.startswith('int'):
        return int(round(base * 40))
    return round(base * 4) / 8.0 + 0.125       # exact in float32


def run_dtypes(scn, ctx):
    """Every column of the specification has its own type."""
    from pylogit import choice_tools as ct
    p = Prob(scn)
    df = p.df()
    raw = {}
    for k, v in enumerate(('x', 'y', 'z')):
        t = scn['types'][k]
        raw[v] = [typed(t, k, i, a) for i, a in p.rows]
        df[v] = np.array(raw[v], dtype=t)
    want = [[float(raw[v][r]) if g is None or a in g else 0.0
             for v, g in p.kinds()] for r, (i, a) in enumerate(p.rows)]
    design, _ = ctx.call(ct.create_design_matrix, df, p.spec_dict(), ALT)
    ctx.close(np.asarray(design, dtype=float), want, 'design matrix',
              rtol=1e-12, atol=0)
    if scn.get('model'):
        m = ctx.call(lambda: p.model(df))
        ctx.close(np.asarray(m.design, dtype=float), want, 'model design',
                  rtol=1e-12, atol=0)
        coef = [0.4 - 0.23 * k for k in range(len(want[0]))]
        got = ctx.call(m.predict, df, param_list=[np.array(coef), None, None,
                                                  None])
        util = [sum(c * w for c, w in zip(coef, r)) for r in want]
        den = {}
        for r, (i, a) in enumerate(p.rows):
            den[i] = den.get(i, 0.0) + math.exp(util[r])
        ctx.close(got, [math.exp(util[r]) / den[i] for r, (i, a) in
                        enumerate(p.rows)], 'probabilities')
    ctx.see(want)


def gen_dtypes(tier):
    pat = [[[2, 0, 1], 1], [[0, 2], 2], [[0, 1, 2], 0]]
    specs = [[['x', 'all_same'], ['y', 'all_same'], ['z', 'all_same']],
             [['z', [[0, 2], 1]], ['x', 'all_diff'], ['y', 'all_same']],
             [['y', [1]], ['z', 'all_same'], ['x', [0, 2]]]]
    for types in product(TYPES, repeat=3):
        for spec in specs:
            d = dict(pat=pat, spec_list=spec, alts=[-7, 0, 4],
                     types=list(types))
            if 'bool' not in types:     # models refuse truth values
                d['model'] = {'type': 'MNL'}
            yield d


FAMILIES = [
    Family('specifications', gen_specs, run,
           'every pair of 19 specification kinds for two variables x names '
           '(default, given, given in another order) x labellings', 50),
    Family('name-orders', gen_names, run,
           'all 24 ordered triples of 4 specifications x 6 orders of the '
           'name dictionary x 4 labellings', 24),
    Family('row-orders-layout', gen_layout, run,
           'row permutations of a 6 row dataset (quick: half), labellings x '
           'value tables x dtypes x indexes', 20),
    Family('fitted-labels', gen_labels, run_labels,
           '9 model configurations x 6 specification orders x 6 name orders',
           6),
    Family('awkward-names', gen_awkward, run_awkward,
           '8 configurations x 10 sets of unusual names x 2 histories of '
           'predicting and estimating', 10),
    Family('large', gen_large, run,
           '300 observations, 140 alternatives, 60 x 12; 2 specifications x '
           '3 labellings x names x 3 row orders', 6),
    Family('types', gen_dtypes, run_dtypes,
           'every assignment of 7 column types to three variables x 3 '
           'specifications, design and predictions', 20),
]
ASSUMPTIONS = ['default names contain str() of the alternative ids; compared '
               'exactly except for float-typed id columns']
