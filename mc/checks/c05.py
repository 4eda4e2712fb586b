"""C05: malformed inputs are refused instead of silently used.

A scenario is (valid call, defect).  The call is first made without the
defect and must succeed, then with it and must raise; afterwards no estimates
may be stored."""
import os
import shutil
import tempfile
from collections import OrderedDict

import numpy as np
import pandas as pd

import boot
import gen
from core import Family
from gen import Prob, OBS, ALT, CH, MIX

PAT = [[[0, 1, 2], 0], [[1, 0], 1], [[2, 1, 0], 2], [[0, 2], 2],
       [[2, 1], 1], [[1, 0, 2], 0]]
CFGS = [{'type': 'MNL'},
        {'type': 'Asym', 'sref': 1, 'iref': 0},
        {'type': 'Asym', 'sref': 2, 'iref': None},
        {'type': 'Cloglog', 'iref': 2}, {'type': 'Cloglog', 'iref': None},
        {'type': 'Scobit', 'iref': 1}, {'type': 'Scobit', 'iref': None},
        {'type': 'Uneven', 'iref': 0}, {'type': 'Uneven', 'iref': None},
        {'type': 'Nested Logit', 'nests': [[1], [2, 0]]},
        {'type': 'Mixed Logit', 'mixing': ['b_y', 'b_x'], 'draws': 2}]


def refuse(ctx, func, msg):
    ctx.raises(func, Exception, msg)


# ------------------------------------------------------------------ building
def build_args(p):
    return dict(data=p.df(), alt_id_col=ALT, obs_id_col=OBS, choice_col=CH,
                specification=p.spec_dict(), model_type=p.type,
                **p.model_kwargs())


def d_drop(a, col):
    a['data'] = a['data'].drop(columns=[col])


def d_value(a, col, row, value, dtype='float64'):
    df = a['data']
    df[col] = df[col].astype(dtype)
    df.loc[df.index[row], col] = float(value)


def d_str(a, col):
    a['data'][col] = a['data'][col].map(lambda v: 'v%s' % v)


def d_astype(a, col, dtype):
    df = a['data']
    if dtype == 'datetime64[ns]':
        df[col] = np.datetime64('2020-01-01', 'ns')
    else:
        df[col] = df[col].astype(dtype)


def d_objstr(a, col, row):
    df = a['data']
    df[col] = df[col].astype(object)
    df.loc[df.index[row], col] = '?'


def d_set(a, key, value):
    a[key] = value


def d_plain(a, key):
    a[key] = dict(a[key])


def d_spec(a, var, value):
    s = OrderedDict(a['specification'])
    s[var] = value
    a['specification'] = s


def d_name(a, var, value):
    s = OrderedDict(a['names'])
    s[var] = value
    a['names'] = s


def d_name_drop(a, var):
    s = OrderedDict(a['names'])
    del s[var]
    a['names'] = s


def d_name_add(a, var, value):
    s = OrderedDict(a['names'])
    s[var] = value
    a['names'] = s


def d_trim(a, key):
    a[key] = a[key][:-1]


def d_extend(a, key):
    a[key] = a[key] + ['extra']


def d_nest(a, which):
    s = a['nest_spec']
    keys = list(s.keys())
    items = [(k, list(s[k])) for k in keys]
    if which == 'list':
        a['nest_spec'] = items
        return
    if which == 'intkey':
        items[0] = (1, items[0][1])
    elif which == 'tuple':
        items[1] = (keys[1], tuple(items[1][1]))
    elif which == 'empty':
        items.append(('hollow', []))
    elif which == 'emptied':
        items = [(keys[0], items[0][1] + items[1][1]), (keys[1], [])]
    elif which == 'float':
        items[1] = (keys[1], [float(x) for x in items[1][1]])
    elif which == 'str':
        items[0] = (keys[0], [str(x) for x in items[0][1]])
    elif which in ('dup0', 'dup1'):
        j = int(which[3:])
        src = items[j % 2][1][0]
        items[(j + 1) % 2] = (keys[(j + 1) % 2],
                              items[(j + 1) % 2][1] + [src])
    elif which == 'dupsame':
        items[1] = (keys[1], items[1][1] + items[1][1][:1])
    elif which.startswith('miss'):
        q = int(which[4:])
        items = [(k, [x for x in v if x != q]) for k, v in items]
        items = [(k, v) for k, v in items if v]
    elif which == 'extra':
        items[0] = (keys[0], items[0][1] + [99])
    a['nest_spec'] = OrderedDict(items)


BUILD = {'drop': d_drop, 'value': d_value, 'str': d_str, 'objstr': d_objstr,
         'set': d_set, 'plain': d_plain, 'spec': d_spec, 'name': d_name,
         'name-drop': d_name_drop, 'name-add': d_name_add, 'trim': d_trim,
         'extend': d_extend, 'astype': d_astype, 'nest': d_nest}


def run_build(scn, ctx):
    import pylogit as pl
    p = Prob(scn)
    good = ctx.call(pl.create_choice_model, **build_args(p))
    ctx.check(not hasattr(good, 'params') or good.params is None,
              'estimates before estimation')
    a = build_args(p)
    d = scn['defect']
    if d[0] == 'data':
        a['data'] = {'none': None, 'dict': {'x': [1]},
                     'array': a['data'].values, 'path': 'nothing.txt',
                     'missing': os.path.join(tempfile.gettempdir(),
                                             'no-such-file-here.csv'),
                     'list': [1, 2]}[d[1]]
    else:
        BUILD[d[0]](a, *d[1:])
    refuse(ctx, lambda: pl.create_choice_model(**a),
           'a model was built in spite of the defect %s' % (d,))
    ctx.see(str(d), p.type)


def build_defects(p, cfg):
    out = []
    for c in (ALT, OBS, CH, 'x', 'y'):
        out.append(['drop', c])
    nrow = len(p.rows)
    for c in p.variables():
        if c == 'intercept':
            continue
        for r in range(nrow):
            for v in ('nan', 'inf', '-inf'):
                out.append(['value', c, r, v])
            out.append(['objstr', c, r])
            if r % 2:
                for dt in ('float32', 'float16', 'longdouble'):
                    out.append(['value', c, r, 'nan', dt])
                    out.append(['value', c, r, 'inf', dt])
        out.append(['str', c])
        for dt in ('complex128', 'datetime64[ns]', 'category'):
            out.append(['astype', c, dt])
    for t in ('', 'mnl', 'Logit', 'Multinomial Logit', None, 3):
        out.append(['set', 'model_type', t])
    for t in ('none', 'dict', 'array', 'path', 'missing', 'list'):
        out.append(['data', t])
    out += [['plain', 'specification'], ['plain', 'names'],
            ['set', 'specification', None],
            ['set', 'specification', [['x', 'all_same']]],
            ['set', 'names', ['b_x', 'b_y']]]
    for var, kind in p.spec:
        if kind == 'all_same':
            for v in ('all_samee', 'same', 'ALL_SAME', '', None, 3,
                      {'x': 1}, [99], [[1, 99]], [[[1, 2]]],
                      [1, [2, [3]]], (1, 2)):
                out.append(['spec', var, v])
            for v in (['b'], 5, None, ['b', 'c']):
                out.append(['name', var, v])
        elif isinstance(kind, list):
            for v in ('b', [], ['b'] * (len(kind) + 1), None,
                      [1] * len(kind)):
                out.append(['name', var, v])
            for v in ([99], [[1, 99], 2]):
                out.append(['spec', var, v])
        else:
            for v in ('b', [], ['b'] * (p.J - 1), ['b'] * (p.J + 1), None):
                out.append(['name', var, v])
        out.append(['name-drop', var])
    out.append(['name-add', 'z', 'b_z'])
    out.append(['spec', 'nosuchcolumn', 'all_same'])
    t = cfg['type']
    if t in ('MNL', 'Mixed Logit'):
        for r in (0, 1):
            out.append(['set', 'intercept_ref_pos', r])
    if cfg.get('iref') is not None:
        for r in (None, -1, p.J, p.J + 3, 1.0, '1', 0.5):
            out.append(['set', 'intercept_ref_pos', r])
        out += [['trim', 'intercept_names'], ['extend', 'intercept_names']]
    if t == 'Asym':
        for r in (None, -1, p.J, 1.0, '1'):
            out.append(['set', 'shape_ref_pos', r])
    if t in ('Asym', 'Scobit', 'Uneven'):
        out += [['trim', 'shape_names'], ['extend', 'shape_names']]
    if t == 'Nested Logit':
        out.append(['plain', 'nest_spec'])
        for w in (['list', 'intkey', 'tuple', 'empty', 'emptied', 'float',
                   'str', 'dup0', 'dup1', 'dupsame', 'extra'] +
                  ['miss%d' % a for a in p.alt_ids]):
            out.append(['nest', w])
    if t == 'Mixed Logit':
        for v in (['b_q'], ['b_x', 'b_q'], ['x']):
            out.append(['set', 'mixing_vars', v])
    return out


def gen_build(tier):
    for spec in ('xy', 'ixg', 'xd'):
        for cfg in CFGS:
            c = dict(cfg)
            if c['type'] == 'Mixed Logit':
                if spec == 'xd':
                    continue
                if spec == 'ixg':
                    c['mixing'] = ['b_y', 'b_x_[0, 1]']
            base = dict(pat=PAT, model=c, spec=spec)
            p = Prob(base)
            for d in build_defects(p, c):
                if tier == 'quick' and spec != 'xy' and d[0] in (
                        'value', 'objstr') and d[2] % 5 != len(c) % 5:
                    continue
                if d[0] == 'drop' and d[1] == 'y' and \
                        'y' not in p.variables():
                    continue
                yield dict(base, defect=d)


# ---------------------------------------------------------------- estimating
def fit_defects(p, cfg):
    K, nrow = p.nparams(), len(p.rows)
    n, s, c, b, g = p.sizes()
    out = [['init', K - 1], ['init', K + 1], ['init', K + 4],
           ['init', 0], ['init', 2 * K], ['init', None]]
    if K > 2:
        out.append(['init', 1])
    for r in range(nrow):
        out.append(['weight', r, -1.0])
        out.append(['weight', r, -1e-6])
    out += [['weights', 'short'], ['weights', 'long'], ['weights', 'col'],
            ['weights', 'list'], ['weights', 'obs'], ['weights', 'scalar'],
            ['weights', 'series']]
    for v in ('0.1', [0.1], [], {}):
        out.append(['kw', 'ridge', v])
    for k in range(1, nrow):
        # move one row of the first observation further down
        out.append(['rows', 0, k])
    for k in (2, 5, 7):
        out.append(['rows', k, nrow - 1 if k < 7 else 1])
    t = cfg['type']
    if t in ('MNL', 'Nested Logit', 'Mixed Logit'):
        for key in ('init_shapes', 'init_intercepts', 'init_coefs'):
            out.append(['extra', key])
    else:
        for key, size in (('init_shapes', s), ('init_intercepts', c),
                          ('init_coefs', b)):
            if size:
                for d in (-1, 1):
                    out.append(['block', key, d])
        out.append(['block-missing', 'init_coefs'])
        if s:
            out.append(['block-missing', 'init_shapes'])
    if t == 'Mixed Logit':
        for v in (0, -1, 2.0, '2', None):
            out.append(['kw', 'num_draws', v])
        for v in (0, -3, 1.5, '7'):
            out.append(['kw', 'seed', v])
    return out


def interleaved(df, src, dst):
    order = list(range(len(df)))
    x = order.pop(src)
    order.insert(dst, x)
    out = df.iloc[order].reset_index(drop=True)
    ids = out[OBS].tolist()
    seen, ok = [], True
    for o in ids:
        if seen and o == seen[-1]:
            continue
        if o in seen:
            ok = False
        seen.append(o)
    return out, ok


def run_fit(scn, ctx):
    p = Prob(scn)
    d = scn['defect']
    n, s, c, b, g = p.sizes()
    K = p.nparams()
    kw = dict(print_res=False, maxiter=0, constrained_pos=list(range(K)))
    if p.type == 'Mixed Logit':
        kw.update(num_draws=2, seed=3)
    if d[0] == 'rows':
        df, ok = interleaved(p.df(), d[1], d[2])
        if ok:
            return
        good, bad = p.model(), p.model(df)
    else:
        good, bad = p.model(), p.model()
    init = np.array(p.params('d'))
    blocks = dict(init_shapes=init[n:n + s] if s else None,
                  init_intercepts=init[n + s:n + s + c] if c else None,
                  init_coefs=init[n + s + c:])
    w = p.row_weights([1.0 + 0.5 * (u % 3) for u in range(p.nunits())])
    gkw, bkw = dict(kw), dict(kw)
    gi = bi = init
    if d[0] == 'init':
        bi = None if d[1] is None else np.zeros(d[1])
    elif d[0] == 'weight':
        gkw['weights'] = w
        bad_w = w.copy()
        bad_w[d[1]] = float(d[2])
        bkw['weights'] = bad_w
    elif d[0] == 'weights':
        gkw['weights'] = w
        bkw['weights'] = {
            'short': w[:-1], 'long': np.concatenate([w, w[:1]]),
            'col': w[:, None], 'list': w.tolist(), 'obs': np.ones(p.n),
            'scalar': 2.0, 'series': pd.Series(w)}[d[1]]
    elif d[0] == 'kw':
        bkw[d[1]] = d[2]
    elif d[0] == 'extra':
        bkw[d[1]] = np.zeros(2)
    elif d[0] == 'block':
        gi = bi = None
        gkw.update((k, v) for k, v in blocks.items() if v is not None)
        bkw.update((k, v) for k, v in blocks.items() if v is not None)
        x = blocks[d[1]]
        bkw[d[1]] = x[:-1] if d[2] < 0 else np.concatenate([x, [0.5]])
    elif d[0] == 'block-missing':
        gi = bi = None
        gkw.update((k, v) for k, v in blocks.items() if v is not None)
        bkw.update((k, v) for k, v in blocks.items()
                   if v is not None and k != d[1])
    ctx.call(good.fit_mle, gi, **gkw)
    ctx.check(getattr(good, 'params', None) is not None,
              'no estimates after estimation')
    refuse(ctx, lambda: bad.fit_mle(bi, **bkw),
           'estimated in spite of the defect %s' % (d,))
    ctx.check(getattr(bad, 'params', None) is None and
              getattr(bad, 'summary', None) is None and
              getattr(bad, 'log_likelihood', None) is None,
              'estimates stored in spite of the error')
    ctx.see(str(d), p.type)


def gen_fit(tier):
    for cfg in CFGS:
        for mk in (None, 'panel'):
            if mk and cfg['type'] != 'Mixed Logit':
                continue
            base = dict(pat=PAT, model=cfg, spec='xy')
            if mk:
                base['mix'] = [4, 4, 2, 2, 9, 9]
            p = Prob(base)
            for d in fit_defects(p, cfg):
                if mk and d[0] == 'weight':
                    continue
                yield dict(base, defect=d)
                if d[0] == 'rows' and not mk:
                    for t in ('uint8', 'uint64', 'int8', 'float64',
                              'object'):
                        yield dict(base, defect=d, dtypes={OBS: t})
                    yield dict(base, defect=d, dtypes={OBS: 'int8'},
                               ids=[-120, -5, 0, 9, 100, 127])


# ----------------------------------------------------------------- predicting
def pred_defects(p, cfg):
    n, s, c, b, g = p.sizes()
    out = [['drop', ALT], ['drop', OBS], ['drop', 'x'],
           ['data', 'none'], ['data', 'array'], ['data', 'path'],
           ['data', 'missing'], ['nochoice'],
           ['params', 'tuple'], ['params', 'array'], ['params', 'three'],
           ['params', 'five'], ['params', 'nocoef'], ['params', 'lists']]
    names = ['coef', 'intercept', 'shape', 'nest']
    sizes = [b + g, c, s, n]
    for k, (nm, z) in enumerate(zip(names, sizes)):
        if not z:
            continue
        out += [['rows', k, -1], ['rows', k, 1]]
        if k:
            out.append(['aslist', k])
            if p.type not in ('Nested Logit', 'Mixed Logit'):
                out += [['twod', k], ['twod1', k], ['cols', k]]
    out.append(['dims3'])
    for k, z in enumerate(sizes):
        if not z:
            out += [['extra', k, r] for r in (1, 2, 3, 6, len(p.rows))]
        elif k:
            out.append(['onecol', k])
    out.append(['onlytwod'])
    if p.type == 'Mixed Logit':
        out.append(['drop', MIX])
        for v in (0, -1, 2.5, '3', None):
            out.append(['kw', 'num_draws', v])
        for v in (0, -2, 1.5):
            out.append(['kw', 'seed', v])
    return out


def run_pred(scn, ctx):
    p = Prob(scn)
    d = scn['defect']
    model = p.model()
    kw = {}
    if p.type == 'Mixed Logit':
        kw = dict(num_draws=2, seed=3)
    params = [None if x is None else x.copy()
              for x in p.param_list(p.params('d'))]
    if d[0] in ('cols', 'twod', 'dims3') and p.type not in (
            'Nested Logit', 'Mixed Logit'):
        two = [None if x is None else np.column_stack([x, x]) for x in
               params]
        ctx.call(model.predict, p.df(), param_list=two, **kw)
    ctx.call(model.predict, p.df(), param_list=params, choice_col=CH, **kw)
    bad, bkw = p.df(), dict(kw)
    plist = list(params)
    if d[0] == 'drop':
        bad = bad.drop(columns=[d[1]])
    elif d[0] == 'data':
        bad = {'none': None, 'array': bad.values, 'path': 'file.xlsx',
               'missing': os.path.join(tempfile.gettempdir(),
                                       'no-such-file-here.csv')}[d[1]]
    elif d[0] == 'nochoice':
        bkw['return_long_probs'] = False
    elif d[0] == 'params':
        plist = {'tuple': tuple(plist), 'array': plist[0],
                 'three': plist[:3], 'five': plist + [None],
                 'nocoef': [None] + plist[1:],
                 'lists': [None if x is None else x.tolist()
                           for x in plist]}[d[1]]
    elif d[0] == 'rows':
        x = plist[d[1]]
        plist[d[1]] = x[:-1] if d[2] < 0 else np.concatenate([x, [0.3]])
    elif d[0] == 'aslist':
        plist[d[1]] = plist[d[1]].tolist()
    elif d[0] == 'twod':
        plist[d[1]] = np.column_stack([plist[d[1]]] * 2)
    elif d[0] == 'twod1':
        plist[d[1]] = plist[d[1]][:, None]
    elif d[0] == 'cols':
        plist = [None if x is None else
                 np.column_stack([x] * (3 if k == d[1] else 2))
                 for k, x in enumerate(plist)]
    elif d[0] == 'extra':
        # Parameters for which the model has no use.
        plist[d[1]] = np.linspace(0.1, 0.4, d[2])
    elif d[0] == 'onecol':
        plist = [None if x is None else
                 x[:, None] if k == d[1] else np.column_stack([x, x])
                 for k, x in enumerate(plist)]
    elif d[0] == 'onlytwod':
        plist[0] = np.column_stack([plist[0]] * 2)
        if all(x is None for x in plist[1:]):
            plist[1] = np.ones(1)
    elif d[0] == 'dims3':
        plist[0] = np.ones((plist[0].size, 2, 2))
    elif d[0] == 'kw':
        bkw[d[1]] = d[2]
    refuse(ctx, lambda: model.predict(bad, param_list=plist, **bkw),
           'predicted in spite of the defect %s' % (d,))
    ctx.see(str(d), p.type)


def gen_pred(tier):
    for spec in ('xy', 'ixg'):
        for cfg in CFGS:
            c = dict(cfg)
            if c['type'] == 'Mixed Logit' and spec == 'ixg':
                c['mixing'] = ['b_y', 'b_x_[0, 1]']
            base = dict(pat=PAT, model=c, spec=spec)
            for d in pred_defects(Prob(base), c):
                yield dict(base, defect=d)
                if spec == 'xy' and c['type'] not in (
                        'MNL', 'Nested Logit', 'Mixed Logit'):
                    yield dict(base, defect=d, anon=1)


# ---------------------------------------------------------------- converting
def wide_args():
    pat = PAT
    df = pd.DataFrame(OrderedDict(
        [('oid', [3, 5, 6, 9, 12, 20]),
         ('picked', [c + 1 for s, c in pat])] +
        [('av%d' % a, [int(a in s) for s, c in pat]) for a in range(3)] +
        [('inc', [10.0 + i for i in range(6)])] +
        [('t%d' % a, [i + 0.1 * a for i in range(6)]) for a in range(3)]))
    return dict(wide_data=df, ind_vars=['inc'],
                alt_specific_vars={'time': {1: 't0', 2: 't1', 3: 't2'}},
                availability_vars={1: 'av0', 2: 'av1', 3: 'av2'},
                obs_id_col='oid', choice_col='picked')


def long_args():
    rows = [(i, a) for i, (s, c) in enumerate(PAT) for a in s]
    df = pd.DataFrame(OrderedDict([
        ('oid', [[3, 5, 6, 9, 12, 20][i] for i, a in rows]),
        ('alt', [a + 1 for i, a in rows]),
        ('picked', [int(PAT[i][1] == a) for i, a in rows]),
        ('inc', [10.0 + i for i, a in rows]),
        ('time', [i + 0.1 * a for i, a in rows]),
        ('cost', [i - 0.2 * a for i, a in rows])]))
    return dict(long_data=df, ind_vars=['inc'], alt_specific_vars=['time'],
                subset_specific_vars={'cost': [1, 3]}, obs_id_col='oid',
                alt_id_col='alt', choice_col='picked',
                alt_name_dict={1: 'one', 2: 'two', 3: 'three'})


def run_conv(scn, ctx):
    import pylogit as pl
    d = scn['defect']
    if scn['which'] == 'wide':
        ctx.call(pl.convert_wide_to_long, **wide_args())
        a = wide_args()
        df = a['wide_data']
        if d[0] == 'drop':
            a['wide_data'] = df.drop(columns=[d[1]])
        elif d[0] == 'dupid':
            df.loc[d[1], 'oid'] = df.loc[d[2], 'oid']
        elif d[0] == 'null':
            df['picked'] = df['picked'].astype(float)
            df.loc[d[1], 'picked'] = np.nan
        elif d[0] == 'unavailable':
            row, alt = d[1], d[2]
            df.loc[row, 'picked'] = alt
        elif d[0] == 'closed':
            df.loc[d[1], 'av%d' % (df.loc[d[1], 'picked'] - 1)] = 0
        elif d[0] == 'undeclared':
            a['availability_vars'].pop(d[1])
        elif d[0] == 'extra-av':
            df['av9'] = 1
            a['availability_vars'][9] = 'av9'
        elif d[0] == 'extra-var':
            a['alt_specific_vars']['time'][9] = 't0'
        elif d[0] == 'badcol':
            a[d[1]] = d[2]
        refuse(ctx, lambda: pl.convert_wide_to_long(**a),
               'converted in spite of the defect %s' % (d,))
    else:
        ctx.call(pl.convert_long_to_wide, **long_args())
        a = long_args()
        df = a['long_data']
        if d[0] == 'drop':
            a['long_data'] = df.drop(columns=[d[1]])
        elif d[0] == 'dup':
            a['long_data'] = pd.concat([df, df.iloc[d[1]:d[1] + 1]],
                                       ignore_index=True)
        elif d[0] == 'none':
            df.loc[df['oid'] == d[1], 'picked'] = 0
        elif d[0] == 'two':
            df.loc[d[1], 'picked'] = 1
        elif d[0] == 'swap':
            # one observation chooses twice and another never
            one = df[(df['picked'] == 1) & (df['oid'] == d[1])].index[0]
            two = df[(df['picked'] == 0) & (df['oid'] == d[2])].index[0]
            df.loc[one, 'picked'] = 0
            df.loc[two, 'picked'] = 1
        elif d[0] == 'badcol':
            a[d[1]] = d[2]
        elif d[0] == 'altname':
            a['alt_name_dict'] = {'list': ['one', 'two', 'three'],
                                  'str': 'abc',
                                  'extra': {1: 'a', 2: 'b', 3: 'c',
                                            9: 'd'},
                                  'missing': {1: 'a', 2: 'b'},
                                  'empty': {}}[d[1]]
        refuse(ctx, lambda: pl.convert_long_to_wide(**a),
               'converted in spite of the defect %s' % (d,))
    ctx.see(scn['which'], str(d))


def gen_conv(tier):
    W, L = [], []
    for c in ('oid', 'picked', 'av0', 'av1', 'av2', 'inc', 't0', 't1', 't2'):
        W.append(['drop', c])
    for i in range(6):
        for j in range(6):
            if i != j:
                W.append(['dupid', i, j])
        W.append(['null', i])
        W.append(['closed', i])
        for a in range(3):
            if a not in PAT[i][0]:
                W.append(['unavailable', i, a + 1])
        W.append(['unavailable', i, 77])
    for a in (1, 2, 3):
        W.append(['undeclared', a])
    W += [['extra-av'], ['extra-var'], ['badcol', 'ind_vars', ['no']],
          ['badcol', 'obs_id_col', 'no'], ['badcol', 'choice_col', 'no'],
          ['badcol', 'ind_vars', ['inc', 'no']]]
    for c in ('oid', 'alt', 'picked', 'inc', 'time', 'cost'):
        L.append(['drop', c])
    rows = [(i, a) for i, (s, c) in enumerate(PAT) for a in s]
    oid = [3, 5, 6, 9, 12, 20]
    for r, (i, a) in enumerate(rows):
        L.append(['dup', r])
        if PAT[i][1] != a:
            L.append(['two', r])
    for o in oid:
        L.append(['none', o])
        for q in oid:
            if q != o:
                L.append(['swap', o, q])
    L += [['badcol', 'ind_vars', ['no']],
          ['badcol', 'alt_specific_vars', ['no']],
          ['badcol', 'alt_specific_vars', ['time', 'no']],
          ['badcol', 'subset_specific_vars', {'no': [1]}],
          ['badcol', 'obs_id_col', 'no'], ['badcol', 'alt_id_col', 'no'],
          ['badcol', 'choice_col', 'no']]
    for k in ('list', 'str', 'extra', 'missing', 'empty'):
        L.append(['altname', k])
    for d in W:
        yield dict(which='wide', defect=d)
    for d in L:
        yield dict(which='long', defect=d)


# ------------------------------------------------------------------ intervals
LEVELS_BAD = [0, 0.0, -1, -0.5, 100, 100.0, 100.5, 150, '95', None, [95],
              'nan']


def run_boot(scn, ctx):
    from pylogit import bootstrap, bootstrap_calcs as bc
    from pylogit import bootstrap_sampler as bs, bootstrap_abc as abc
    p = Prob(dict(pat=PAT, model=scn['model'], spec='xy'))
    d = scn['defect']
    K = p.nparams()
    reps = np.array([[0.1 * ((r * 7 + k) % 11) for k in range(K)]
                     for r in range(11)])
    theta = np.array([0.45] * K)
    model = p.model()

    def fresh():
        b = bootstrap.Boot(model, theta)
        b.bootstrap_replicates = pd.DataFrame(reps,
                                              columns=p.param_names())
        b.jackknife_replicates = pd.DataFrame(reps[:6],
                                              columns=p.param_names())
        return b

    df = p.df()
    arrays = (df[OBS].values, df[ALT].values, df[CH].values)
    b = fresh()
    with boot.quiet():
        ctx.call(b.calc_conf_intervals, 90, interval_type='pi')
        ctx.call(b.calc_bca_interval, 90)
        b = fresh()
        if d[0] == 'level':
            lv = float('nan') if d[2] == 'nan' else d[2]
            f = {'pi': lambda: b.calc_percentile_interval(lv),
                 'bca': lambda: b.calc_bca_interval(lv),
                 'conf-pi': lambda: b.calc_conf_intervals(lv, 'pi'),
                 'conf-bca': lambda: b.calc_conf_intervals(lv, 'bca'),
                 'conf-all': lambda: b.calc_conf_intervals(
                     lv, 'all', init_vals=theta, print_res=False,
                     maxiter=1),
                 'abc': lambda: b.calc_abc_interval(
                     lv, theta, print_res=False, maxiter=1),
                 'func-pi': lambda: bc.calc_percentile_interval(reps, lv),
                 'func-bca': lambda: bc.calc_bca_interval(
                     reps, reps[:6], theta, lv),
                 'func-abc': lambda: abc.calc_abc_interval(
                     model, theta, theta, lv, print_res=False,
                     maxiter=1)}[d[1]]
            refuse(ctx, f, 'interval for the confidence level %r' % (lv,))
            ctx.check(b.percentile_interval is None and b.bca_interval is
                      None and b.abc_interval is None and
                      b.all_intervals is None, 'an interval was stored')
        elif d[0] == 'type':
            refuse(ctx, lambda: b.calc_conf_intervals(90, d[1]),
                   'interval type %r' % (d[1],))
        elif d[0] == 'reps':
            x = {'1d': reps[:, 0], 'list': reps.tolist(),
                 '3d': reps[:, :, None],
                 'frame': pd.DataFrame(reps)}[d[2]]
            f = {'pi': lambda: bc.calc_percentile_interval(x, 90),
                 'bca': lambda: bc.calc_bca_interval(x, reps[:6], theta,
                                                     90),
                 'jack': lambda: bc.calc_bca_interval(reps, x, theta, 90)
                 }[d[1]]
            refuse(ctx, f, 'replicates that are not a 2D array')
        elif d[0] == 'seed':
            ctx.call(bs.create_cross_sectional_bootstrap_samples,
                     *arrays, num_samples=2, seed=5)
            s = d[1]
            refuse(ctx, lambda: bs.create_cross_sectional_bootstrap_samples(
                *arrays, num_samples=2, seed=s), 'seed %r' % (s,))
            kw = dict(print_res=False, maxiter=1, boot_seed=s)
            if p.type != 'MNL':
                kw.update(mnl_obj=boot.mnl_for(p, p.df()),
                          mnl_init_vals=np.zeros(boot.mnl_size(p)),
                          mnl_fit_kwargs=dict(print_res=False, maxiter=1))
            b.bootstrap_replicates = None
            refuse(ctx, lambda: b.generate_bootstrap_replicates(2, **kw),
                   'boot_seed %r' % (s,))
            ctx.check(b.bootstrap_replicates is None,
                      'replicates were stored')
        elif d[0] == 'which':
            ctx.call(b.calc_log_likes_for_replicates, 'jackknife')
            refuse(ctx, lambda: b.calc_log_likes_for_replicates(d[1]),
                   'replicates=%r' % (d[1],))
            refuse(ctx, lambda: b.calc_gradient_norm_for_replicates(d[1]),
                   'replicates=%r' % (d[1],))
        elif d[0] == 'frame':
            groups = bs.create_deepcopied_groupby_dict(df, OBS)
            ids = df[OBS].unique()
            ctx.call(bs.create_bootstrap_dataframe, df, OBS, ids, groups)
            bad, col, rid = df, OBS, ids.copy()
            kw = {}
            if d[1] == 'present':
                bad = df.copy()
                bad['bootstrap_id'] = 1
            elif d[1] == 'present2':
                kw['boot_id_col'] = 'x'
            elif d[1] == 'nocol':
                col = 'no'
            else:
                rid[d[2]] = 999
            refuse(ctx, lambda: bs.create_bootstrap_dataframe(
                bad, col, rid, groups, **kw), 'bootstrap frame %s' % (d,))
        elif d[0] == 'present':
            bad = p.df()
            bad['bootstrap_id'] = 1
            bb = bootstrap.Boot(p.model(bad), theta)
            refuse(ctx, lambda: bb.generate_bootstrap_replicates(
                2, print_res=False, maxiter=1), 'data with bootstrap_id')
        elif d[0] == 'params':
            m = {'short': theta[:-1], 'long': np.concatenate([theta,
                                                              [1.0]])}[d[1]]
            refuse(ctx, lambda: bootstrap.Boot(model, m),
                   'mis-sized mle_params')
    ctx.see(p.type, str(d))


def gen_boot(tier):
    for cfg in CFGS:
        if cfg['type'] == 'Mixed Logit':
            continue
        D = []
        for f in ('pi', 'bca', 'conf-pi', 'conf-bca', 'conf-all', 'abc',
                  'func-pi', 'func-bca', 'func-abc'):
            for lv in LEVELS_BAD:
                D.append(['level', f, lv])
        D += [['type', t] for t in ('PI', 'percentile', '', None, 'BCA',
                                    'abcd')]
        D += [['reps', w, k] for w in ('pi', 'bca', 'jack')
              for k in ('1d', 'list', '3d', 'frame')]
        D += [['seed', s] for s in (1.0, '3', [1], 2.5)]
        D += [['which', s] for s in ('boot', '', None, 'Bootstrap')]
        D += [['frame', 'present'], ['frame', 'present2'],
              ['frame', 'nocol']] + [['frame', 'unknown', k]
                                     for k in range(6)]
        D += [['present'], ['params', 'short'], ['params', 'long']]
        for d in D:
            yield dict(model=cfg, defect=d)


# ------------------------------------------------------------- other entries
def run_misc(scn, ctx):
    from pylogit import choice_tools as pl
    p = Prob(dict(pat=PAT, model=scn['model'], spec='xy',
                  mix=[4, 4, 2, 2, 9, 9]))
    d = scn['defect']
    tmp = tempfile.mkdtemp(prefix='c05_')
    try:
        if d[0] == 'pickle':
            m = p.model()
            ctx.call(m.to_pickle, os.path.join(tmp, 'ok'))
            refuse(ctx, lambda: m.to_pickle(d[1]), 'pickle path %r' % (d[1],))
        elif d[0] == 'panel':
            m = p.model()
            m.fit_mle(np.array(p.params('d')), num_draws=2, seed=3,
                      maxiter=0, print_res=False,
                      constrained_pos=list(range(p.nparams())))
            ctx.call(m.panel_predict, p.df(), 2, seed=3)
            df, kw, R = p.df(), {}, 2
            if d[1] == 'drop':
                df = df.drop(columns=[d[2]])
            elif d[1] == 'nochoice':
                kw['return_long_probs'] = False
            elif d[1] == 'draws':
                R = d[2]
            elif d[1] == 'seed':
                kw['seed'] = d[2]
            elif d[1] == 'data':
                df = {'none': None, 'array': df.values,
                      'path': 'x.dat'}[d[2]]
            kw.setdefault('seed', 3)
            refuse(ctx, lambda: m.panel_predict(df, R, **kw),
                   'panel prediction with the defect %s' % (d,))
        elif d[0] == 'design':
            args = [p.df(), p.spec_dict(), ALT]
            ctx.call(pl.create_design_matrix, *args, names=p.names_dict())
            names = p.names_dict()
            if d[1] == 'array':
                args[0] = args[0].values
            elif d[1] == 'plain':
                args[1] = dict(args[1])
            elif d[1] == 'alt':
                args[2] = 'no'
            elif d[1] == 'names':
                names = dict(names)
            elif d[1] == 'col':
                args[0] = args[0].drop(columns=['x'])
            refuse(ctx, lambda: pl.create_design_matrix(*args, names=names),
                   'design matrix with the defect %s' % (d,))
    finally:
        shutil.rmtree(tmp)
    ctx.see(p.type, str(d))


def gen_misc(tier):
    for cfg in CFGS:
        D = [['pickle', x] for x in (None, 3, ['a'], 1.5)]
        if cfg['type'] == 'MNL':
            D += [['design', x] for x in ('array', 'plain', 'alt', 'names',
                                          'col')]
        if cfg['type'] == 'Mixed Logit':
            D += [['panel', 'drop', c] for c in (ALT, OBS, MIX, 'x')]
            D += [['panel', 'nochoice']]
            D += [['panel', 'draws', v] for v in (0, -1, 2.0, None)]
            D += [['panel', 'seed', v] for v in (0, -1, 1.5)]
            D += [['panel', 'data', v] for v in ('none', 'array', 'path')]
        for d in D:
            yield dict(model=cfg, defect=d)


FAMILIES = [
    Family('building', gen_build, run_build,
           '11 configurations x 3 specifications x every defect of a menu '
           '(non-finite or non-numeric value at every row and variable, '
           'missing columns, bad specification, names, references, nests, '
           'mixing variables)', 200),
    Family('estimating', gen_fit, run_fit,
           '11 configurations x every defect (initial value lengths, a '
           'negative weight at every row, mis-sized weights, rows of one '
           'observation moved to every other place, parameter blocks, '
           'draws, seeds)', 100),
    Family('predicting', gen_pred, run_pred,
           '11 configurations x 2 specifications x every defect', 100),
    Family('converting', gen_conv, run_conv,
           'every missing column, duplicated id pair, blank, unavailable or '
           'repeated choice at every position', 100),
    Family('intervals', gen_boot, run_boot,
           '10 configurations x 9 entry points x 12 bad levels and the other '
           'bootstrap arguments', 100),
    Family('other', gen_misc, run_misc,
           'saving, panel prediction and design matrices', 20),
]
ASSUMPTIONS = [
    'any raised exception counts as a refusal',
    'the menu holds the requirements stated in the documentation, with the '
    'defect at every position; other kinds of malformed input are outside '
    'the bound',
]
