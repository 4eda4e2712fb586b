"""C02: long-to-wide preserves every choice record and round-trips."""
from collections import OrderedDict
from itertools import permutations, product, combinations

import numpy as np
import pandas as pd

from core import Family
from gen import val, ordered_sets, obs_configs
from checks.c01 import all_chosen_patterns

LABELS = [[1, 2, 3], [-4, 0, 9], [12, 20, 300]]


def rows_of(scn):
    rows = [(i, a) for i, (s, c) in enumerate(scn['pat']) for a in s]
    o = scn.get('order')
    if o == 'rev':
        rows = rows[::-1]
    elif o == 'alt':
        rows = sorted(rows, key=lambda r: (r[1], r[0]))
    elif o == 'altrev':
        rows = sorted(rows, key=lambda r: (-r[1], r[0]))
    elif o == 'twist':
        rows = rows[1::2] + rows[0::2]
    elif o:
        rows = [rows[k] for k in o]
    return rows


def timeval(scn, tab, i, a):
    """Values of the alternative specific variable; some are special."""
    k = scn.get('special')
    if k and (3 * i + 2 * a + k) % 4 == 0:
        return [float('nan'), float('inf'), -float('inf')][(i + a + k) % 3]
    return val(tab, 1, i, a)


def clean(r):
    """Comparable records: NaN is replaced."""
    return tuple(-987654.25 if x != x else x for x in r)


def long_frame(scn):
    lab, ids = scn['labels'], scn['ids']
    rows = rows_of(scn)
    tab = scn.get('vals', 'real')
    d = OrderedDict()
    d['oid'] = [ids[i] for i, a in rows]
    d['alt'] = [lab[a] for i, a in rows]
    d['picked'] = [int(scn['pat'][i][1] == a) for i, a in rows]
    d['inc'] = [val(tab, 0, scn.get('same', i), 0) for i, a in rows]
    d['age'] = [3 + 2 * i for i, a in rows]
    d['time'] = [timeval(scn, tab, i, a) for i, a in rows]
    d['cost'] = [int(10 * val('real', 2, i, a)) for i, a in rows]
    df = pd.DataFrame(d)
    if scn.get('dtype') == 'bool':
        df['picked'] = df['picked'].astype(bool)
    elif scn.get('dtype') == 'float':
        df['oid'] = df['oid'].astype(float)
        df['picked'] = df['picked'].astype(float)
    if scn.get('index') == 'rev':
        df.index = list(range(len(rows)))[::-1]
    elif scn.get('index') == 'dup':
        df.index = ['k'] * len(rows)
    return df


def run(scn, ctx):
    import pylogit as pl
    lab, ids = scn['labels'], scn['ids']
    J = len(lab)
    df = long_frame(scn)
    before = df.copy(deep=True)
    tab = scn.get('vals', 'real')
    null = scn.get('null', 'nan')
    nullv = float('nan') if null == 'nan' else null
    ind = list(scn.get('ind', ['inc', 'age']))
    asv = list(scn.get('asv', ['time']))
    sub = OrderedDict((k, [lab[a] for a in v]) for k, v in
                      scn.get('sub', [['cost', [0, J - 1]]]))
    kw = {}
    names = dict((lab[a], str(lab[a])) for a in range(J))
    if scn.get('named'):
        names = dict((lab[a], 'mode%s' % 'qazw'[a]) for a in range(J))
        order = [lab[a] for a in range(J)]
        if scn['named'] > 1:
            order = order[1:] + order[:1] if scn['named'] == 2 else \
                order[::-1]
        kw['alt_name_dict'] = OrderedDict((x, names[x]) for x in order)
    if null != 'nan':
        kw['null_value'] = nullv
    out = ctx.call(pl.convert_long_to_wide, df, ind, asv, sub, 'oid', 'alt',
                   'picked', **kw)
    n = len(scn['pat'])
    want_cols = ['oid', 'picked']
    want_cols += ['availability_%s' % names[lab[a]] for a in range(J)]
    want_cols += ind
    for v in asv:
        want_cols += ['%s_%s' % (v, names[lab[a]]) for a in range(J)]
    for v, alts in scn.get('sub', [['cost', [0, J - 1]]]):
        want_cols += ['%s_%s' % (v, names[lab[a]]) for a in sorted(alts)]
    ctx.eq(sorted(out.columns.tolist()), sorted(want_cols), 'wide columns')
    ctx.eq(len(out), n, 'number of wide rows')
    rows = dict((int(out.iloc[k]['oid']), out.iloc[k]) for k in range(n))
    ctx.eq(sorted(rows), sorted(ids[:n]), 'observation ids')

    def value(v, i, a):
        if v == 'time':
            return float(timeval(scn, tab, i, a))
        return float(int(10 * val('real', 2, i, a)))
    for i, (s, c) in enumerate(scn['pat']):
        row = rows[ids[i]]
        ctx.eq(int(row['picked']), lab[c], 'chosen alternative of obs %s' %
               ids[i])
        if 'inc' in ind:
            ctx.close(float(row['inc']), float(val(tab, 0,
                                                   scn.get('same', i), 0)),
                      'individual variable')
        if 'age' in ind:
            ctx.close(float(row['age']), 3.0 + 2 * i, 'individual variable')
        for a in range(J):
            ctx.eq(int(row['availability_%s' % names[lab[a]]]), int(a in s),
                   'availability obs %s alt %s' % (ids[i], lab[a]))
        for v in asv + [k for k, _ in scn.get('sub',
                                              [['cost', [0, J - 1]]])]:
            alts = dict(scn.get('sub', [['cost', [0, J - 1]]])).get(
                v, range(J))
            for a in alts:
                want = value(v, i, a) if a in s else nullv
                ctx.close(float(row['%s_%s' % (v, names[lab[a]])]), want,
                          '%s of obs %s alt %s' % (v, ids[i], lab[a]))
    ctx.check(df.equals(before), 'long data was modified')
    ctx.see(out.values.tolist())
    if scn.get('back'):
        wide = out
        av = OrderedDict((lab[a], 'availability_%s' % names[lab[a]])
                         for a in scn.get('avorder', range(J)))
        back_vars = OrderedDict()
        for v in asv:
            back_vars[v] = dict((lab[a], '%s_%s' % (v, names[lab[a]]))
                                for a in range(J))
        for v, alts in scn.get('sub', [['cost', [0, J - 1]]]):
            back_vars[v] = dict((lab[a], '%s_%s' % (v, names[lab[a]]))
                                for a in alts)
        back = ctx.call(pl.convert_wide_to_long, wide, ind, back_vars, av,
                        'oid', 'picked', new_alt_id_name='alt')
        cols = ['oid', 'alt', 'picked'] + ind + list(back_vars)
        a1 = sorted(clean(float(x) for x in r)
                    for r in df[cols].values.tolist())
        for v, alts in scn.get('sub', [['cost', [0, J - 1]]]):
            k = cols.index(v)
            a1 = sorted(tuple(x if q != k or r[1] in
                              [lab[z] for z in alts] else 0.0
                              for q, x in enumerate(r)) for r in a1)
        b1 = sorted(clean(float(x) for x in r)
                    for r in back[cols].values.tolist())
        ctx.close([list(r) for r in b1], [list(r) for r in a1],
                  'records after the round trip')


def gen_orders(tier):
    """Every row permutation of small long datasets."""
    pats = [[[[0, 1], 1], [[0, 1], 0]], [[[0, 1], 0], [[0], 0], [[1], 1]],
            [[[0], 0], [[0, 1], 1], [[1], 1]]]
    for pat in pats:
        m = sum(len(s) for s, c in pat)
        for perm in permutations(range(m)):
            yield dict(pat=pat, labels=[1, 2], ids=[5, 2, 9],
                       order=list(perm), sub=[['cost', [1]]], back=1)
    pats = [[[[0, 1, 2], 1], [[0, 2], 0], [[2], 2]]]
    if tier == 'thorough':
        pats.append([[[0, 1, 2], 0], [[1, 2], 2], [[0, 1], 1]])
    for pat in pats:
        m = sum(len(s) for s, c in pat)
        for k, perm in enumerate(permutations(range(m))):
            if tier == 'quick' and m == 6 and k % 2:
                continue
            if m == 7 and k % 2:
                continue
            yield dict(pat=pat, labels=[-4, 0, 9], ids=[30, -1, 20],
                       order=list(perm), back=1)


def gen_patterns(tier):
    for order in (None, 'rev', 'alt', 'twist'):
        for n in (2, 3):
            for pat in all_chosen_patterns(2, n):
                yield dict(pat=pat, labels=[7, 9], ids=[4, 9, 2],
                           order=order, sub=[['cost', [0]]], back=1)
        for k, pat in enumerate(all_chosen_patterns(3, 3)):
            if tier == 'quick' and order in ('alt', 'rev') and k % 2:
                continue
            yield dict(pat=pat, labels=LABELS[k % 3], ids=[30, 10, 20],
                       order=order, back=1)


def gen_options(tier):
    pats = [[[[0, 2], 0], [[2, 1, 0], 1], [[1, 2], 2]],
            [[[0, 1, 2], 0], [[2, 1, 0], 1], [[1, 2, 0], 2]]]
    for pat in pats:
        for labels in LABELS:
            for null in ('nan', -999, 0):
                for named in ((0, 1, 2, 3) if null == 'nan' else (0, 1)):
                    for sub in ([['cost', [0, 2]]], [['cost', [2]]],
                                [['cost', [1, 0]]], []):
                        for ind in (['inc', 'age'], [], ['age']):
                            for asv in (['time'], []):
                                for lay in (dict(), dict(dtype='float',
                                                         index='dup'),
                                            dict(index='rev', vals='zero'),
                                            dict(dtype='bool', vals='int',
                                                 same=0)):
                                    d = dict(pat=pat, labels=labels,
                                             ids=[30, 10, 20], null=null,
                                             named=named, sub=sub, ind=ind,
                                             asv=asv, order='twist')
                                    d.update(lay)
                                    yield d


def gen_special(tier):
    """Missing and infinite values of available alternatives."""
    pats = [[[[0, 2], 0], [[2, 1, 0], 1], [[1, 2], 2]],
            [[[0, 1, 2], 0], [[2, 1, 0], 1], [[1, 2, 0], 2]]]
    for pat in pats:
        for special in range(1, 13):
            for null in ('nan', -999, 0):
                for order in (None, 'alt', 'twist'):
                    yield dict(pat=pat, labels=[7, 9, 30], ids=[30, 10, 20],
                               null=null, order=order, special=special,
                               back=1)


def gen_medium(tier):
    for J, n in ((4, 9), (8, 20), (3, 300), (140, 140)):
        pat = []
        for i in range(n):
            c = i % J
            s = [a for a in range(J) if (a * 3 + i * 5) % 4 or a == c]
            if J == 140:
                s = [c, (c + 1) % J, (c * 3 + 2) % J]
                s = s if len(set(s)) == 3 else s[:2]
            if i % 2:
                s = s[::-1]
            pat.append([s, c])
        ids = [((i * 7) % 23) - 5 + 23 * (i // 23) for i in range(n)]
        for order in (None, 'rev', 'alt', 'altrev', 'twist'):
            for labels, off in (([a * 3 - 5 for a in range(J)], 0),
                                ([20000001 + a for a in range(J)],
                                 3000000000)):
                yield dict(pat=pat, labels=labels, order=order, back=1,
                           ids=[i + off for i in ids])


FAMILIES = [
    Family('row-orders', gen_orders, run,
           'every permutation of the rows of 3 small datasets and (quick: '
           'every second) of 6-row 3-alternative datasets', 6),
    Family('patterns', gen_patterns, run,
           'every availability pattern and choice vector (J=2 n<=3, J=3 n=3) '
           'x 4 row orders', 20),
    Family('options', gen_options, run,
           '2 patterns x 3 labellings x 3 null values x naming x subset '
           'declarations x individual variables x layouts', 20),
    Family('special-values', gen_special, run,
           'missing and infinite values in every residue class of the rows '
           'x null values x row orders', 20),
    Family('medium', gen_medium, run, 'J=4,8 with 9-20 observations x 5 row '
           'orders', 2),
]
ASSUMPTIONS = ['individual variables are constant within an observation',
               'the wide rows may be in any order (matched by id)']
