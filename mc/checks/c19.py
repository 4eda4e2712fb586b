"""C19: bootstrap samples are stratified resamples of whole observations."""
import math
from itertools import product

import numpy as np
import pandas as pd

import boot
import gen
from core import Family
from gen import Prob, patterns


class Tape(object):
    """Stands in for numpy's module level generator functions; every draw is
    taken from an enumerated tape."""

    def __init__(self, tape):
        self.tape, self.k, self.calls, self.bad = tape, 0, 0, None

    def take(self, n):
        out = []
        for _ in range(n):
            v = self.tape[self.k] if self.k < len(self.tape) else 0
            self.k += 1
            out.append(v)
        return out

    def choice(self, a, size=None, replace=True, p=None):
        self.calls += 1
        pool = np.arange(a) if isinstance(a, (int, np.integer)) else \
            np.asarray(a)
        shp = (1,) if size is None else tuple(np.atleast_1d(size))
        n = int(np.prod(shp))
        if n and not replace:
            self.bad = 'draws without replacement'
        if p is not None and not np.allclose(p, 1.0 / len(pool)):
            self.bad = 'draws with unequal probabilities'
        out = np.array([pool[v % len(pool)] for v in self.take(n)],
                       dtype=pool.dtype).reshape(shp)
        return out[0] if size is None else out

    def randint(self, low, high=None, size=None, dtype=int):
        self.calls += 1
        lo, hi = (0, low) if high is None else (low, high)
        shp = (1,) if size is None else tuple(np.atleast_1d(size))
        out = np.array([lo + v % (hi - lo) for v in
                        self.take(int(np.prod(shp)))],
                       dtype=dtype).reshape(shp)
        return out[0] if size is None else out


class Patched(object):
    def __init__(self, tape):
        self.t = tape

    def __enter__(self):
        self.old = (np.random.choice, np.random.randint)
        np.random.choice, np.random.randint = self.t.choice, self.t.randint

    def __exit__(self, *a):
        np.random.choice, np.random.randint = self.old


def chooser(p):
    return dict((p.ids[i], p.label[c]) for i, (s, c) in enumerate(p.pat))


def arrays(p):
    df = p.df()
    return df[gen.OBS].values, df[gen.ALT].values, df[gen.CH].values


def structure(ctx, p, out, S):
    """One row per sample; strata of the original sizes."""
    who = chooser(p)
    ctx.eq(tuple(out.shape), (S, p.n), 'shape of the samples')
    size = {}
    for a in who.values():
        size[a] = size.get(a, 0) + 1
    for row in out.tolist():
        cnt = {}
        for v in row:
            ctx.check(v in who, 'sampled id is not an observation', v)
            cnt[who[v]] = cnt.get(who[v], 0) + 1
        ctx.eq(cnt, size, 'observations per chosen alternative')


def run_tape(scn, ctx):
    """Every outcome of the generator for S samples of a small dataset."""
    from pylogit import bootstrap_sampler as bs
    p = Prob(scn)
    S = scn['S']
    who = chooser(p)
    strata = {}
    for o, a in who.items():
        strata.setdefault(a, []).append(o)
    sizes = [len(v) for v in strata.values()]
    cells = S * sum(sizes)
    top = max(sizes)
    outcomes = set()
    used = 0
    for tape in product(range(top), repeat=cells):
        t = Tape(list(tape))
        with Patched(t):
            out = ctx.call(bs.create_cross_sectional_bootstrap_samples,
                           *(list(arrays(p)) + [S]))
        if not t.calls:
            ctx.see('another generator', str(scn))
            break
        used += 1
        ctx.check(t.bad is None, str(t.bad))
        structure(ctx, p, out, S)
        outcomes.add(tuple(out.ravel().tolist()))
    if used:
        total = 1
        for z in sizes:
            total *= z ** (z * S)
        ctx.eq(len(outcomes), total, 'distinct reachable samples')
        ctx.see(sorted(outcomes)[0], total)


def gen_tape(tier):
    full = tier == 'thorough'
    for n in (1, 2):
        for pat in patterns(2, n):
            for S in (1, 2, 3):
                if n == 2 and S == 3 and not full and len(pat[0][0]) == 1:
                    continue
                yield dict(pat=pat, S=S, ids=[9, 4][:n])
    for pat in patterns(2, 3, ordered=False):
        for ids in ([1, 2, 3], [30, -1, 12], [20000003, 20000001, 20000002]):
            yield dict(pat=pat, S=1, ids=ids)
    for pat in patterns(3, 3, ordered=False, full_only=True):
        for ids in ([5, 2, 7],):
            yield dict(pat=pat, S=1, ids=ids, alts=[4, -2, 0])
    pat = [[[0, 1, 2], 1], [[1, 2], 1], [[0, 2], 0], [[2, 0], 0]]
    for order in (None, 'rev', 'alt', 'twist'):
        yield dict(pat=pat, S=1, ids=[3, 1, 4, 2], order=order)
        yield dict(pat=pat, S=2, ids=[3, 1, 4, 2], order=order)
        yield dict(pat=pat, S=1, order=order, alts=[20000001, 20000002,
                                                    20000003],
                   ids=[3000000003, 3000000001, 3000000004, 3000000002])


BIG = 2 ** 60


def gen_ids(tier):
    """Ids and column types: 64 bit ids that are not exact in floating
    point, narrow and unsigned integers, floats, objects."""
    pat = [[[0, 1, 2], 1], [[1, 2], 1], [[0, 2], 0], [[2, 0], 0]]
    for ids in ([BIG + 3, BIG + 1, BIG + 4, BIG + 2],
                [-BIG - 1, -BIG - 3, BIG - 1, BIG - 5], [3, 1, 4, 2],
                [1, 2, 3, 4]):
        for dt in ({}, {gen.OBS: 'object'}, {gen.CH: 'bool'},
                   {gen.CH: 'float64', gen.ALT: 'float64'},
                   {gen.CH: 'uint8', gen.ALT: 'int8'}):
            for order in (None, 'twist'):
                yield dict(pat=pat, S=1, ids=ids, dtypes=dt, order=order)
        if max(ids) < 10:
            for t in ('int8', 'uint8', 'uint64', 'float64', 'float32'):
                yield dict(pat=pat, S=1, ids=ids, dtypes={gen.OBS: t})


def run_seeds(scn, ctx):
    """Seeds: reproducible, integer valued, every resample reached, samples of
    one call and strata independent (counted over enumerated seeds)."""
    from pylogit import bootstrap_sampler as bs
    p = Prob(scn)
    S = scn['S']
    args = list(arrays(p))
    hits, pair = {}, {}
    who = chooser(p)
    strata = {}
    for o, a in sorted(who.items()):
        strata.setdefault(a, []).append(o)
    N = scn['seeds']
    for seed in range(N):
        out = ctx.call(bs.create_cross_sectional_bootstrap_samples,
                       *(args + [S]), seed=seed)
        if seed < 3:
            structure(ctx, p, out, S)
            np.random.rand(5)
            again = ctx.call(bs.create_cross_sectional_bootstrap_samples,
                             *(args + [S]), seed=seed)
            ctx.check(np.array_equal(out, again), 'same seed, other samples')
        for s, row in enumerate(out.tolist()):
            key = (s,) + tuple(sorted(row))
            hits[key] = hits.get(key, 0) + 1
        for s in range(S - 1):
            k2 = (tuple(sorted(out[s].tolist())),
                  tuple(sorted(out[s + 1].tolist())))
            pair[k2] = pair.get(k2, 0) + 1
    # expected multinomial probabilities of each multiset
    probs = {(): 1.0}
    for a, obs in strata.items():
        z = len(obs)
        new = {}
        for draw in product(obs, repeat=z):
            for k, v in probs.items():
                kk = tuple(sorted(k + draw))
                new[kk] = new.get(kk, 0.0) + v / float(z) ** z
        probs = new
    for s in range(S):
        for k, v in probs.items():
            got = hits.get((s,) + k, 0)
            dev = 7 * math.sqrt(N * v * (1 - v)) + 1
            ctx.check(abs(got - N * v) <= dev, 'sample %d is %s in %d of %d '
                      'seeds, expected about %.1f' % (s, k, got, N, N * v))
    for k1, v1 in probs.items():
        for k2, v2 in probs.items():
            if S < 2:
                continue
            v = v1 * v2
            got = pair.get((k1, k2), 0)
            M = N * (S - 1)
            dev = 7 * math.sqrt(M * v * (1 - v)) + 1
            ctx.check(abs(got - M * v) <= dev, 'consecutive samples %s %s '
                      'in %d of %d pairs, expected about %.1f: not '
                      'independent' % (k1, k2, got, M, M * v))
    ctx.see(sorted(hits.items())[:3])


def gen_seeds(tier):
    N = 3000 if tier == 'thorough' else 600
    base = [[[[0, 1], 0], [[0, 1], 0]],
            [[[0, 1], 0], [[1, 0], 0], [[0, 1], 1]],
            [[[0, 1], 1], [[1, 0], 1], [[0, 1], 1]],
            [[[0, 1, 2], 2], [[1, 0], 0], [[0, 2], 2], [[0, 1], 0]],
            [[[0, 1, 2], 1], [[1, 2], 2]]]
    for pat in base:
        for ids in (list(range(1, len(pat) + 1)), [8, 3, 11, 2][:len(pat)]):
            for S in (1, 2, 3):
                yield dict(pat=pat, ids=ids, S=S, seeds=N)


def run_frame(scn, ctx):
    """Every draw of ids: the resampled data."""
    from pylogit import bootstrap_sampler as bs
    p = Prob(scn)
    df = p.df(extra=True, index=scn.get('index'))
    if scn.get('types'):
        df['flag'] = [k % 2 == 0 for k in range(len(df))]
        df['when'] = pd.to_datetime(['2020-01-%02d' % (k + 1)
                                     for k in range(len(df))])
        df['hole'] = [float('nan') if k % 3 else 1.5
                      for k in range(len(df))]
    if scn.get('name') not in (None, 'bootstrap_id'):
        # data that were resampled before
        df['bootstrap_id'] = [7 + k // 2 for k in range(len(df))]
    cols = df.columns.tolist()
    recs = {}
    for k in range(len(df)):
        recs.setdefault(int(df[gen.OBS].values[k]), []).append(
            [df[c].iloc[k] for c in cols])
    before = df.copy(deep=True)
    grouped = ctx.call(bs.create_deepcopied_groupby_dict, df, gen.OBS)
    ctx.eq(sorted(int(k) for k in grouped), sorted(recs), 'groups')
    for k in grouped:
        ctx.eq(len(grouped[k]), len(recs[int(k)]), 'rows of a group')
    kw = {}
    name = 'bootstrap_id'
    if scn.get('name'):
        kw['boot_id_col'] = name = scn['name']
    draws = product(p.ids, repeat=scn['len']) if scn['len'] else \
        [[p.ids[(k * m + m) % p.n] for k in range(p.n)] for m in (1, 7, 10)]
    for draw in draws:
        arr = np.array(draw, dtype=float if scn.get('float') else int)
        out = ctx.call(bs.create_bootstrap_dataframe, df, gen.OBS, arr,
                       grouped, **kw)
        ctx.eq(out.columns.tolist(), cols + [name], 'columns')
        want, ids = [], []
        for b, o in enumerate(draw):
            for r in recs[o]:
                want.append(r)
                ids.append(b + 1)
        ctx.eq(len(out), len(want), 'rows of the resampled data %s' %
               (draw,))
        ctx.eq(out[name].tolist(), ids, 'fresh ids for %s' % (draw,))
        for c in range(len(cols)):
            got = out[cols[c]].tolist()
            exp = [r[c] for r in want]
            ctx.check(all(x == y or (x != x and y != y)
                          for x, y in zip(got, exp)),
                      'column %s of the resampled data %s' % (cols[c], draw),
                      got, exp)
            ctx.eq(str(out[cols[c]].dtype), str(df[cols[c]].dtype),
                   'dtype of %s' % cols[c])
        ctx.eq(len(set(out.index.tolist())), len(out), 'index labels of the '
               'resampled data')
        out.loc[:, 'x'] = -5.0
        ctx.see(ids)
    ctx.check(df.equals(before), 'the original data was modified')
    for k in grouped:
        ctx.check(not (grouped[k]['x'] == -5.0).any(), 'groups modified '
                  'through the resampled data')


def gen_frame(tier):
    full = tier == 'thorough'
    for pat in patterns(2, 2):
        for order in (None, 'rev', 'alt'):
            for index in (None, 'rev', 'dup'):
                yield dict(pat=pat, ids=[9, 4], order=order, index=index,
                           len=2, float=1)
    for pat in patterns(3, 3, ordered=False):
        # the choice does not matter here, only the choice sets do
        if any(c != s[0] for s, c in pat[:3 if not full else 0]):
            continue
        yield dict(pat=pat, ids=[30, -1, 12] if len(pat[2][0]) > 1 else
                   [20000003, 20000001, 20000002], len=3,
                   order='twist' if len(pat[0][0]) > 1 else None,
                   float=len(pat[1][0]) % 2)
    pat = [[[0, 1, 2], 1], [[1, 2], 1], [[2, 0], 0]]
    for order in (None, 'rev', 'alt', 'twist'):
        for ids in ([BIG + 3, BIG + 1, BIG + 2], [-BIG - 1, 0, BIG - 1]):
            yield dict(pat=pat, ids=ids, order=order, len=3, types=1)
        for index in (None, 'rev', 'dup', 'str'):
            for name in (None, 'new_id'):
                for fl in (0, 1):
                    for n in (1, 3, 4):
                        yield dict(pat=pat, ids=[3, 1, 2], order=order,
                                   index=index, name=name, float=fl, len=n,
                                   types=1)


def gen_large(tier):
    from checks.c06 import medium
    for index in (None, 'rev', 'dup'):
        for order in (None, 'twist'):
            yield dict(pat=medium('obs300'), len=0, index=index, order=order,
                       ids=[3000 - 7 * ((i * 11) % 300) for i in range(300)])


def run_large(scn, ctx):
    """Structure of the samples of large strata."""
    from pylogit import bootstrap_sampler as bs
    p = Prob(scn)
    seen = set()
    for seed in range(40):
        out = ctx.call(bs.create_cross_sectional_bootstrap_samples,
                       *(list(arrays(p)) + [3]), seed=seed)
        structure(ctx, p, out, 3)
        seen.update(int(x) for x in np.ravel(out))
    ctx.eq(sorted(seen), sorted(p.ids), 'observations reached in 120 samples')
    ctx.see(out)


def gen_strata(tier):
    from checks.c06 import medium
    for kind in ('obs300', 'alts140', 'obs30'):
        pat = medium(kind)
        for ids in (list(range(1, len(pat) + 1)),
                    [3000 - 7 * ((i * 11) % 300) for i in range(len(pat))],
                    [BIG + i for i in range(len(pat))],
                    [3000000000 + i for i in range(len(pat))]):
            yield dict(pat=pat, ids=ids)


def run_many(scn, ctx):
    """Many samples in one call: no two of them coincide, in no stratum of
    ten or more observations (the chance of that is below 1e-4)."""
    from pylogit import bootstrap_sampler as bs
    p = Prob(scn)
    S = scn['S']
    who = chooser(p)
    size = {}
    for a in who.values():
        size[a] = size.get(a, 0) + 1
    out = ctx.call(bs.create_cross_sectional_bootstrap_samples,
                   *(list(arrays(p)) + [S]), seed=scn['seed'])
    structure(ctx, p, out, S)
    for a in sorted(size):
        if size[a] < 10:
            continue
        parts = [tuple(v for v in row if who[v] == a)
                 for row in out.tolist()]
        ctx.eq(len(set(parts)), S, 'different samples among %d, stratum %s'
               % (S, a))
    ctx.see(out[0].tolist(), out[-1].tolist())


def gen_many(tier):
    pat = []
    for i in range(36):
        c = 0 if i % 3 else 1 + i % 2
        pat.append([[0, 1, 2] if i % 4 else [2, c] if c != 2 else [2, 0], c])
    for S in (2, 17, 33, 51, 65, 101, 129, 200, 257, 300):
        for seed in (0, 1, 77):
            yield dict(pat=pat, ids=[5 + 3 * i for i in range(36)], S=S,
                       seed=seed)


def run_boot(scn, ctx):
    """The Boot object refits exactly the drawn samples: each replicate comes
    from a stratified sample, and samples follow the seed."""
    from pylogit import bootstrap, bootstrap_sampler as bs
    from pylogit import bootstrap_mle as bm
    p = Prob(scn)
    model = p.model()
    b = bootstrap.Boot(model, np.array(p.params('d')))
    runs = []
    for rep in range(3):
        np.random.seed(rep * 7 + 1)
        with boot.quiet():
            ctx.call(b.generate_bootstrap_replicates, scn['S'],
                     boot_seed=scn['seed'] + (rep == 2), maxiter=3,
                     ridge=0.5)
        runs.append(b.bootstrap_replicates.values.copy())
    ctx.check(np.array_equal(runs[0], runs[1]), 'same seed, other '
              'replicates')
    ctx.check(not np.array_equal(runs[0], runs[2]), 'another seed gives the '
              'same replicates')
    distinct = len(set(tuple(np.round(r, 9)) for r in runs[0].tolist()))
    ctx.check(distinct > scn['S'] // 2, 'the samples of one call are not '
              'different from each other', distinct)
    ctx.see(runs[0])


def gen_boot(tier):
    from checks.c06 import medium
    for seed in (1, 5, 77):
        for S in (4, 6):
            for kind in ('mix', 'obs30'):
                yield dict(pat=medium(kind), spec='xy', S=S, seed=seed)
        n = len(medium('mix'))
        yield dict(pat=medium('mix'), spec='xy', S=5, seed=seed,
                   ids=[BIG + i for i in range(n)])


FAMILIES = [
    Family('generator-outcomes', gen_tape, run_tape,
           'every outcome of every generator call for all patterns with 2 '
           'observations (1-3 samples), 3 observations (1 sample) and 4 '
           'observations in two strata (1-2 samples)', 10),
    Family('id-types', gen_ids, run_tape,
           'every outcome of the generator for 4 observations whose ids are '
           '64 bit, negative, narrow, unsigned, float or object', 4),
    Family('seeds', gen_seeds, run_seeds,
           '5 datasets x 2 id labellings x 1-3 samples x seeds 0..599 '
           '(thorough 0..2999): reachability, frequencies, independence', 10),
    Family('resampled-data', gen_frame, run_frame,
           'all choice-set patterns, every draw of ids for 2-3 observations (and up to 4 draws) x row '
           'orders x index kinds x column types', 10),
    Family('large-data', gen_large, run_frame, 'resampled data of 300 '
           'observations', 1),
    Family('large-strata', gen_strata, run_large, 'strata of 100 '
           'observations and of one, 40 seeds', 3),
    Family('many-samples', gen_many, run_many, '2 to 300 samples in one '
           'call x 3 seeds', 3),
    Family('boot-samples', gen_boot, run_boot,
           'replicates of the Boot object for 3 seeds x 2 sizes x 2 '
           'datasets', 5),
]
ASSUMPTIONS = ['the quality of numpy\'s generator itself is trusted; '
               'frequencies are compared within seven standard deviations '
               'over the enumerated seeds']
