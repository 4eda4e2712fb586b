"""C01: wide-to-long conversion preserves every choice record."""
from collections import OrderedDict
from itertools import permutations, product, combinations

import numpy as np
import pandas as pd

from core import Family
from gen import val

LABELS = [[1, 2, 3], [-4, 0, 9], [0, 1, 2], [12, 7, 300], [3, 1, 2],
          [20000003, 20000001, 20000002]]
IDS = [[1, 2, 3], [-2, 0, 7], [30, 10, 20], [5, 4, 1000000],
       [20000003, 20000001, 20000002], [3000000002, 3000000003, 3000000001]]


def records(scn):
    """The choice records a scenario stands for: one dict per (obs, alt)."""
    lab, ids = scn['labels'], scn['ids']
    recs = []
    for i, (s, c) in enumerate(scn['pat']):
        for a in sorted(s, key=lambda q: lab[q]):
            recs.append(dict(obs=ids[i], alt=lab[a], i=i, a=a,
                             choice=int(a == c)))
    return recs


def wide_frame(scn):
    lab, ids = scn['labels'], scn['ids']
    J = len(lab)
    n = len(scn['pat'])
    d = OrderedDict()
    d['oid'] = ids[:n]
    d['picked'] = [lab[c] for s, c in scn['pat']]
    tab = scn.get('vals', 'real')
    for a in range(J):
        d['av%d' % a] = [int(a in s) for s, c in scn['pat']]
    d['inc'] = [val(tab, 0, i, 0) for i in range(n)]
    d['age'] = [3 + 2 * i for i in range(n)]
    for a in range(J):
        d['time%d' % a] = [val(tab, 1, i, a) for i in range(n)]
        d['cost%d' % a] = [int(10 * val('real', 2, i, a)) for i in range(n)]
    df = pd.DataFrame(d)
    if scn.get('dtype') == 'bool':
        for a in range(J):
            df['av%d' % a] = df['av%d' % a].astype(bool)
    elif scn.get('dtype') == 'float':
        for a in range(J):
            df['av%d' % a] = df['av%d' % a].astype(float)
        df['oid'] = df['oid'].astype(float)
    elif scn.get('dtype') == 'small':
        df['oid'] = df['oid'].astype('int32')
        for a in range(J):
            df['av%d' % a] = df['av%d' % a].astype('int8')
    if scn.get('index') == 'rev':
        df.index = list(range(n))[::-1]
    elif scn.get('index') == 'dup':
        df.index = ['k'] * n
    if scn.get('cols') == 'rev':
        df = df[df.columns[::-1]]
    return df


def run(scn, ctx):
    import pylogit as pl
    lab = scn['labels']
    J = len(lab)
    df = wide_frame(scn)
    before = df.copy(deep=True)
    order = scn.get('avorder') or list(range(J))
    av = OrderedDict((lab[a], 'av%d' % a) for a in order)
    if scn.get('plain'):
        av = dict(av)
    asv = OrderedDict()
    decl = OrderedDict()
    for name, col, alts in scn['vars']:
        decl[name] = set(alts)
        asv[name] = dict((lab[a], '%s%d' % (col, a)) for a in alts)
    ind = list(scn.get('ind', ['inc', 'age']))
    kw = {}
    alt_col = 'alt_id'
    if scn.get('altname'):
        kw['new_alt_id_name'] = alt_col = scn['altname']
    out = ctx.call(pl.convert_wide_to_long, df, ind, asv, av, 'oid',
                   'picked', **kw)
    recs = records(scn)
    ctx.eq(sorted(out.columns.tolist()),
           sorted(['oid', alt_col, 'picked'] + ind + list(decl)),
           'columns of the long data')
    ctx.eq(len(out), len(recs), 'number of rows')
    tab = scn.get('vals', 'real')
    got = {}
    for k in range(len(out)):
        row = out.iloc[k]
        key = (int(row['oid']), int(row[alt_col]))
        ctx.check(key not in got, 'pair appears twice', key)
        got[key] = row
    for r in recs:
        key = (r['obs'], r['alt'])
        ctx.check(key in got, 'record lost', key, sorted(got))
        row = got[key]
        ctx.eq(int(row['picked']), r['choice'], 'choice flag of %s' % (key,))
        if 'inc' in ind:
            ctx.close(float(row['inc']), float(val(tab, 0, r['i'], 0)),
                      'individual variable of %s' % (key,))
        if 'age' in ind:
            ctx.close(float(row['age']), 3.0 + 2 * r['i'], 'age %s' % (key,))
        for name, col, alts in scn['vars']:
            if r['a'] in alts:
                want = val(tab, 1, r['i'], r['a']) if col == 'time' else \
                    int(10 * val('real', 2, r['i'], r['a']))
            else:
                want = 0.0
            ctx.close(float(row[name]), float(want),
                      'variable %s of %s' % (name, key))
    # rows of one observation are contiguous, in wide order
    seq = [int(x) for x in out['oid'].values]
    firsts = [x for k, x in enumerate(seq) if k == 0 or seq[k - 1] != x]
    ctx.eq(firsts, scn['ids'][:len(scn['pat'])], 'order of observations')
    ctx.check(df.equals(before) and list(df.columns) == list(before.columns),
              'wide data was modified')
    ctx.see(out.values.tolist())


def all_chosen_patterns(J, n):
    """Unordered choice sets; every alternative chosen at least once."""
    cfg = [[list(s), c] for k in range(1, J + 1)
           for s in combinations(range(J), k) for c in s]
    for combo in product(cfg, repeat=n):
        if len(set(c for s, c in combo)) == J:
            yield [[list(s), c] for s, c in combo]


ALLV = [['time', 'time', [0, 1, 2]], ['cost', 'cost', [0, 1, 2]]]


def gen_patterns(tier):
    for labels in ([1, 2], [7, -3]):
        for n in (2, 3):
            for pat in all_chosen_patterns(2, n):
                for order in ([0, 1], [1, 0]):
                    yield dict(pat=pat, labels=labels, ids=[4, 9, 2],
                               avorder=order,
                               vars=[['time', 'time', [0, 1]],
                                     ['cost', 'cost', [1]]])
    ns = (3,) if tier == 'quick' else (3, 4)
    for n in ns:
        for k, pat in enumerate(all_chosen_patterns(3, n)):
            if n == 4 and k % 4:
                continue
            for labels in (LABELS[:1] + LABELS[3:4] if n == 3 else
                           LABELS[1:2]):
                yield dict(pat=pat, labels=labels, ids=[30, 10, 20, 15],
                           avorder=[2, 0, 1],
                           vars=[['time', 'time', [0, 2]],
                                 ['cost', 'cost', [0, 1, 2]]])


def gen_declarations(tier):
    pats = [[[[0, 1, 2], 1], [[0, 2], 0], [[2], 2]],
            [[[1, 2], 2], [[0, 1, 2], 0], [[0, 1], 1]]]
    subs = [list(s) for k in (1, 2, 3) for s in combinations(range(3), k)]
    for pat in pats:
        for labels in LABELS:
            for order in permutations(range(3)):
                for s1 in subs:
                    for s2 in ([[0, 1, 2], [1]] if tier == 'quick' else
                               subs):
                        yield dict(pat=pat, labels=labels, ids=IDS[0],
                                   avorder=list(order),
                                   vars=[['zz', 'time', s1],
                                         ['aa', 'cost', s2[::-1]]])


def gen_layout(tier):
    pat = [[[0, 2], 0], [[0, 1, 2], 1], [[1, 2], 2]]
    for labels in LABELS:
        for ids in IDS:
            for dt in (None, 'bool', 'float', 'small'):
                if dt == 'small' and max(ids) > 2 ** 31:
                    continue
                for ix in (None, 'rev', 'dup'):
                    for cols in (None, 'rev'):
                        for extra in (dict(), dict(altname='mode',
                                                   ind=['age']),
                                      dict(ind=[], vals='int', plain=1),
                                      dict(ind=['age', 'inc'],
                                           vals='zero')):
                            d = dict(pat=pat, labels=labels, ids=ids,
                                     dtype=dt, index=ix, cols=cols,
                                     avorder=[1, 2, 0], vars=ALLV)
                            d.update(extra)
                            yield d


KINDS = ['float64', 'int64', 'bool', 'int8', 'float32']


def cell(kind, i, a):
    base = val('real', 1, i, a)
    if kind == 'bool':
        return bool(base > 0)
    if kind == 'text':
        return 'v%d_%d' % (i, a)
    if kind == 'special':
        return [float('nan'), float('inf'), base, 0.0][(i + a) % 4]
    if kind == 'big':
        return 2 ** 53 + 1 + 2 * (7 * i + a)    # not exact in float64
    if kind.startswith('int'):
        return int(round(base * 20))
    return round(base * 4) / 8.0 + 0.125       # exact in float32


def run_dtypes(scn, ctx):
    """The wide columns of one variable have different dtypes."""
    import pylogit as pl
    lab, ids, pat = scn['labels'], scn['ids'], scn['pat']
    n, J = len(pat), len(lab)
    d = OrderedDict(oid=ids[:n], picked=[lab[c] for s, c in pat])
    df = pd.DataFrame(d)
    for a in range(J):
        df['av%d' % a] = np.array([int(a in s) for s, c in pat],
                                  dtype=scn.get('avtype', 'int64'))
    for k, kind in enumerate(scn['ind']):
        col = [cell(kind, i, 5 + k) for i in range(n)]
        df['ind%d' % k] = col if kind in ('text', 'special', 'big') else \
            np.array(col, dtype=kind)
    for a, kind in enumerate(scn['kinds']):
        if kind is not None:
            col = [cell(kind, i, a) for i in range(n)]
            df['t%d' % a] = col if kind in ('text', 'special', 'big') else \
                np.array(col, dtype=kind)
    asv = {'t': OrderedDict((lab[a], 't%d' % a) for a in scn['decl']
                            if scn['kinds'][a] is not None)}
    out = ctx.call(pl.convert_wide_to_long, df,
                   ['ind%d' % k for k in range(len(scn['ind']))], asv,
                   OrderedDict((lab[a], 'av%d' % a) for a in range(J)),
                   'oid', 'picked')
    want = {}
    for r in records(scn):
        kind = scn['kinds'][r['a']]
        want[(r['obs'], r['alt'])] = \
            [cell(k, r['i'], 5 + j) for j, k in enumerate(scn['ind'])] + \
            [cell(kind, r['i'], r['a']) if kind else 0]
    got = dict(((int(o), int(a)), list(v)) for o, a, v in zip(
        out['oid'], out['alt_id'],
        out[['ind%d' % k for k in range(len(scn['ind']))] +
            ['t']].astype(object).values.tolist()))
    ctx.eq(len(out), len(want), 'number of rows')
    ctx.eq(sorted(got), sorted(want), 'records')
    for key in want:
        for g, w in zip(got[key], want[key]):
            ctx.check(g == w or (g != g and w != w), 'value of %s with dtypes %s' %
                      (key, scn['kinds']), got[key], want[key])
    ctx.see(sorted(got.items()))


def gen_dtypes(tier):
    pat = [[[0, 2], 0], [[0, 1, 2], 1], [[1, 2], 2], [[0, 1, 2], 1]]
    for kinds in product(KINDS + [None], repeat=3):
        if kinds == (None,) * 3:
            continue
        for decl in ([0, 1, 2], [2, 0, 1]) if tier == 'quick' else \
                permutations(range(3)):
            for labels in LABELS[:1] + LABELS[3:4]:
                yield dict(pat=pat, labels=labels, ids=[30, 10, 20, 15],
                           kinds=list(kinds), decl=list(decl), ind=[])
    for avt in ('float64', 'bool', 'int8', 'uint8', 'float32'):
        for ids in ([30, 10, 20, 15], [2 ** 60 + k for k in (4, 1, 3, 2)]):
            for ind in (['text'], ['int64', 'special'], ['bool', 'text']):
                for kinds in (['special'] * 3, ['text'] * 3,
                              ['int64', 'bool', 'special']):
                    yield dict(pat=pat, labels=[12, 7, 300], ids=ids,
                               kinds=kinds, decl=[2, 0, 1], ind=ind,
                               avtype=avt)
    for ind in product(KINDS + ['text', 'special', 'big'], repeat=2):
        for kinds in (['int64'] * 3, ['text'] * 3, ['float64', 'int64',
                                                    'bool'], ['big'] * 3):
            yield dict(pat=pat, labels=[12, 7, 300], ids=[30, 10, 20, 15],
                       kinds=kinds, decl=[0, 1, 2], ind=list(ind))


def gen_medium(tier):
    for J, n in ((5, 9), (8, 20), (12, 14), (3, 300), (140, 140)):
        pat = []
        for i in range(n):
            c = i % J
            s = sorted(set([c, (c + 1) % J, (c * 3) % J])) if J == 140 \
                else sorted(set([c] + [a for a in range(J)
                                  if (a * 3 + i * 5) % 4]))
            pat.append([s, c])
        ids = [((i * 7) % 23) - 5 + 23 * (i // 23) for i in range(n)]
        for labels in ([(a * 5) % (13 if J < 13 else 141)
                        for a in range(J)], [10 - a for a in range(J)]):
            for order in (list(range(J)), list(range(J))[::-1]):
                yield dict(pat=pat, labels=labels, ids=ids, avorder=order,
                           vars=[['time', 'time', list(range(0, J, 2))],
                                 ['cost', 'cost', list(range(J))[::-1]]])


FAMILIES = [
    Family('patterns', gen_patterns, run,
           'every availability pattern and choice vector with every '
           'alternative chosen: J=2 n<=3, J=3 n=3 (thorough: a quarter of n=4)',
           20),
    Family('declarations', gen_declarations, run,
           '2 patterns x 5 labellings x 6 availability orders x every subset '
           'of alternatives a variable is declared for', 20),
    Family('layout', gen_layout, run,
           '5 labellings x 4 id sets x 4 dtypes x 3 indexes x 2 column '
           'orders x 4 variable sets', 20),
    Family('dtypes', gen_dtypes, run_dtypes,
           'every combination of 5 dtypes or undeclared for the three wide '
           'columns of a variable x 2 declaration orders x 2 labellings; '
           'every pair of 8 dtypes (with text, missing values, integers '
           'beyond 2**53) of individual '
           'variables; 5 dtypes of the availability columns x 64 bit ids', 20),
    Family('medium', gen_medium, run, 'J=5,8,12 with 9-20 observations', 4),
]
ASSUMPTIONS = ['values from fixed palettes; ids are integers (documented)']
