"""C04: rows map to their observation, alternative, nest and mixing unit."""
from collections import OrderedDict
from itertools import permutations, product

import numpy as np
import pandas as pd
from scipy.sparse import issparse

from core import Family
from gen import ordered_partitions, Prob, configs

POOLS = {
    'plain': [1, 2, 3, 4], 'neg': [0, -5, 3, -1], 'rev': [9, 7, 4, 1],
    'big': [10 ** 12, 3, 10 ** 9, -10 ** 11], 'near': [100, 101, 99, 98],
    'float': [1.5, 1.25, -2.0, 0.0],
    # neighbouring ids beyond 2**24, 2**31 and 2**53
    'large': [20000003, 20000001, 20000004, 20000002],
    'wide': [3000000002, 3000000001, 3000000004, 3000000003],
    'huge': [9007199254740993, 9007199254740992, 9007199254740994,
             9007199254740995],
}


def dense(m):
    return np.asarray(m.todense()) if issparse(m) else np.asarray(m)


def want_first(seq):
    order = []
    for x in seq:
        if x not in order:
            order.append(x)
    return [[int(x == y) for y in order] for x in seq]


def want_cols(seq, cols):
    return [[int(x == y) for y in cols] for x in seq]


def run(scn, ctx):
    from pylogit import choice_tools as ct
    obs = [POOLS[scn['op']][k] for k in scn['obs']]
    alt = [POOLS[scn['ap']][k] for k in scn['alt']]
    mix = [POOLS[scn['mp']][k] for k in scn['mix']]
    ch = scn['ch']
    df = pd.DataFrame(OrderedDict([('o', obs), ('a', alt), ('c', ch),
                                   ('m', mix)]))
    if scn.get('index'):
        df.index = [5] * len(obs)
    if scn.get('cdtype'):
        df['c'] = df['c'].astype(scn['cdtype'])
    alts = sorted(set(alt))
    kw = {}
    if scn.get('withch', 1):
        kw['choice_col'] = 'c'
    nests = None
    if scn.get('nests') is not None:
        parts = ordered_partitions(alts)
        nests = parts[scn['nests'] % len(parts)]
        kw['nest_spec'] = OrderedDict(('n%s' % 'zayb'[k], list(x))
                                      for k, x in enumerate(nests))
    if scn.get('withmix', 1):
        kw['mix_id_col'] = 'm'
    want = {'rows_to_obs': want_first(obs),
            'rows_to_alts': want_cols(alt, alts),
            'chosen_row_to_obs': [[v * c for v in row] for row, c in
                                  zip(want_first(obs), ch)]
            if 'choice_col' in kw else None,
            'rows_to_nests': [[int(x in nest) for nest in nests]
                              for x in alt] if nests else None,
            'rows_to_mixers': want_first(mix) if 'mix_id_col' in kw
            else None}
    for flag in (False, True):
        got = ctx.call(ct.create_long_form_mappings, df, 'o', 'a',
                       dense=flag, **kw)
        ctx.eq(sorted(got), sorted(want), 'mapping names')
        for key in want:
            if want[key] is None:
                ctx.check(got[key] is None, key + ' should be None')
                continue
            ctx.check(issparse(got[key]) != flag, key + ' sparse/dense form')
            ctx.close(dense(got[key]).astype(float), want[key],
                      '%s dense=%s' % (key, flag), rtol=0, atol=0)
            ctx.see(dense(got[key]).astype(float))


def growth(n, k):
    """Restricted growth strings with at most k blocks."""
    def rec(pre, used):
        if len(pre) == n:
            yield list(pre)
            return
        for x in range(min(used + 1, k)):
            for y in rec(pre + [x], max(used, x + 1)):
                yield y
    return list(rec([], 0))


def gen_assign(tier):
    """Every id assignment to 4 rows (thorough 5)."""
    pools = ['plain', 'neg', 'rev', 'big', 'large', 'wide']
    for n in (1, 2, 3, 4):
        for ob in growth(n, 3):
            for al in product(range(3), repeat=n):
                if tier == 'quick' and n == 4 and (sum(al) + sum(ob)) % 2:
                    continue
                k = sum(ob) + sum(al) * 2
                yield dict(obs=ob, alt=list(al), mix=ob[::-1],
                           ch=[int((i + k) % 2) for i in range(n)],
                           op=pools[k % 6], ap=pools[(k + 1) % 6],
                           mp=pools[(k + 2) % 6], nests=k)


def gen_mix(tier):
    for n in (3, 4):
        for ob in growth(n, 4):
            for mx in growth(n, 4):
                for pool in ('plain', 'rev', 'neg', 'float', 'large',
                             'wide'):
                    yield dict(obs=ob, alt=[i % 3 for i in range(n)], mix=mx,
                               ch=[1] + [0] * (n - 1), op='near', ap='plain',
                               mp=pool, nests=None)


def gen_nests(tier):
    for al in ([0, 1, 2], [2, 0, 1, 0], [3, 1, 2, 0], [1, 1, 3, 0],
               [0, 1, 2, 3]):
        m = len(ordered_partitions(sorted(set(al))))
        for k in range(m):
            for pool in ('plain', 'neg', 'rev', 'big', 'large'):
                yield dict(obs=[0] * len(al), alt=al, mix=[0] * len(al),
                           ch=[0] * (len(al) - 1) + [1], op='plain',
                           ap=pool, mp='plain', nests=k)


def gen_options(tier):
    for wc in (0, 1):
        for wm in (0, 1):
            for ns in (None, 3):
                for ix in (0, 1):
                    for cd in (None, 'float', 'int8', 'bool'):
                        for ch in product((0, 1), repeat=4):
                            yield dict(obs=[0, 0, 1, 1], alt=[1, 0, 0, 2],
                                       mix=[1, 1, 0, 0], ch=list(ch),
                                       op='near', ap='neg', mp='rev',
                                       nests=ns, withch=wc, withmix=wm,
                                       index=ix, cdtype=cd)


def run_large(scn, ctx):
    """Hundreds of rows and ids: direct and through create_sparse_mapping."""
    from pylogit import choice_tools as ct
    n, m, mul, off = scn['n'], scn['m'], scn['mul'], scn['off']
    obs = [off + (k * mul) % m for k in range(n)] if not scn['sorted'] else \
        [off + k * m // n for k in range(n)]
    alt = [5 - (k * 3) % scn['J'] for k in range(n)]
    mix = [o // 2 for o in obs]
    ch = [int(k % 3 == 1) for k in range(n)]
    df = pd.DataFrame(OrderedDict([('o', obs), ('a', alt), ('c', ch),
                                   ('m', mix)]))
    alts = sorted(set(alt))
    spec = OrderedDict((('z', alts[1::2]), ('b', alts[::2])))
    ro = want_first(obs)
    want = {'rows_to_obs': ro, 'rows_to_alts': want_cols(alt, alts),
            'chosen_row_to_obs': [[v * c for v in row] for row, c in
                                  zip(ro, ch)],
            'rows_to_nests': [[int(x in nest) for nest in spec.values()]
                              for x in alt],
            'rows_to_mixers': want_first(mix)}
    for flag in (False, True):
        got = ctx.call(ct.create_long_form_mappings, df, 'o', 'a',
                       dense=flag, choice_col='c', nest_spec=spec,
                       mix_id_col='m')
        for key in want:
            ctx.check(np.array_equal(dense(got[key]).astype(float),
                                     np.array(want[key], dtype=float)),
                      '%s of %d rows dense=%s' % (key, n, flag))
    ctx.see(obs, alt)


def gen_large(tier):
    for n, m, J in ((300, 300, 3), (600, 270, 140), (700, 260, 7)):
        for mul in (1, 7, 11):
            for off in (-4, 20000001):
                for so in (0, 1):
                    yield dict(n=n, m=m, mul=mul, off=off, sorted=so, J=J)


def run_model(scn, ctx):
    """get_mappings_for_fit of every model type, sparse and dense."""
    p = Prob(scn)
    m = ctx.call(p.model)
    apos = dict((q, k) for k, q in enumerate(p.pos))
    want = {'rows_to_obs': want_first([i for i, a in p.rows]),
            'rows_to_alts': [[int(apos[a] == k) for k in range(p.J)]
                             for i, a in p.rows]}
    want['chosen_row_to_obs'] = [[v * c for v in r] for r, c in
                                 zip(want['rows_to_obs'], p.choice)]
    want['rows_to_nests'] = None
    want['rows_to_mixers'] = None
    if p.type == 'Nested Logit':
        want['rows_to_nests'] = [[int(a in nest) for nest in p.cfg['nests']]
                                 for i, a in p.rows]
    if p.type == 'Mixed Logit':
        want['rows_to_mixers'] = want_first([p.mix[i] for i, a in p.rows])
    for flag in scn.get('flags', (False, True)):
        got = ctx.call(m.get_mappings_for_fit, dense=flag)
        for key in want:
            if want[key] is not None:
                ctx.check(issparse(got[key]) != bool(flag), '%s does not '
                          'have the requested form (dense=%s)' % (key, flag),
                          type(got[key]))
            if want[key] is None:
                ctx.check(got[key] is None, key)
            else:
                ctx.close(dense(got[key]).astype(float), want[key], key,
                          rtol=0, atol=0)
                ctx.see(dense(got[key]).astype(float))


def gen_model(tier):
    pats = [[[[2, 0, 1], 1], [[0, 2], 2], [[1], 1]],
            [[[0, 1], 0], [[1, 2], 2]]]
    for pat in pats:
        n = len(pat)
        for cfg in configs(3, (['b_x'],)):
            for alts, ids in (([1, 2, 3], [1, 2, 3]),
                              ([-7, 0, 4], [40, -2, 9]),
                              ([10, 11, 300], [3, 2, 1]),
                              ([20000001, 20000002, 20000003],
                               [3000000003, 3000000001, 3000000002])):
                for k, order in enumerate((None, 'rev', 'alt', 'twist')):
                    yield dict(
                               flags=[[False, True], [True, False],
                                      [True, False, True, False],
                                      [False, True, True]][k],
                               pat=pat, model=cfg, spec='xy', alts=alts,
                               ids=ids[:n], order=order,
                               mix=([8, 3, 8] if ids[0] < 9 ** 9 else
                                    [20000003, 20000001, 20000003])[:n])


def run_sparse(scn, ctx):
    """create_sparse_mapping with explicit unique ids (some absent)."""
    from pylogit import choice_tools as ct
    arr = np.array([POOLS[scn['pool']][k] for k in scn['ids']])
    cols = [POOLS[scn['pool']][k] for k in scn['cols']]
    got = ctx.call(ct.create_sparse_mapping, arr,
                   unique_ids=np.array(cols))
    ctx.close(dense(got).astype(float), want_cols(arr.tolist(), cols),
              'sparse mapping', rtol=0, atol=0)
    got = ctx.call(ct.create_sparse_mapping, arr)
    ctx.close(dense(got).astype(float), want_first(arr.tolist()),
              'sparse mapping (default ids)', rtol=0, atol=0)
    got = ctx.call(ct.create_row_to_some_id_col_mapping, arr)
    ctx.close(dense(got).astype(float), want_first(arr.tolist()),
              'dense mapping', rtol=0, atol=0)
    got = ctx.call(ct.get_original_order_unique_ids, arr)
    ctx.eq(got.tolist(), [x for k, x in enumerate(arr.tolist())
                          if x not in arr.tolist()[:k]], 'unique ids')
    ctx.see(arr)


def gen_sparse(tier):
    for pool in ('plain', 'neg', 'rev', 'big', 'float', 'large', 'wide',
                 'huge'):
        for n in (1, 2, 3, 4):
            for ids in product(range(3), repeat=n):
                for cols in ([0, 1, 2], [2, 0], [1], [3, 1, 0, 2]):
                    if not set(ids) & set(cols):
                        continue
                    if tier == 'quick' and n == 4 and cols == [2, 0]:
                        continue
                    yield dict(pool=pool, ids=list(ids), cols=cols)


FAMILIES = [
    Family('id-assignments', gen_assign, run,
           'every assignment of observation and alternative ids to <=4 rows '
           '(quick: half of n=4) over 4 id pools', 50),
    Family('mixing-units', gen_mix, run, 'every pair of set partitions of 3 '
           'and 4 rows into observations and mixing units x 4 id pools', 50),
    Family('nests', gen_nests, run, 'every ordered partition of up to 4 '
           'alternatives into nests x 4 id pools', 20),
    Family('options', gen_options, run, 'every choice vector of 4 rows x '
           'dtypes x optional columns', 20),
    Family('large', gen_large, run_large, '300-700 rows, 260-300 '
           'observations, up to 140 alternatives', 10),
    Family('models', gen_model, run_model, 'get_mappings_for_fit of every '
           'configuration x labellings x row orders', 20),
    Family('sparse-mapping', gen_sparse, run_sparse, 'every id vector of '
           'length <=4 over 3 ids x 5 id pools x explicit columns', 50),
]
ASSUMPTIONS = ['ids are numbers; at most 4 distinct ids per column']
