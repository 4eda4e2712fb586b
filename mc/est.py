"""Enumerations shared by the likelihood / gradient / Hessian checks."""
import math
from itertools import product

import numpy as np

import gen
import ref
from gen import Prob, patterns, configs
from checks.c06 import medium, med_configs, mixids

MIXSETS = (['b_x'], ['b_y', 'b_x'])
MIXSMALL = (['b_y', 'b_x'],)


def partitions_of_obs(n):
    """Every assignment of n observations to mixing units (restricted growth
    strings), with unit ids that are not in ascending order."""
    ids = [7, 2, 9, 4]

    def rec(prefix, used):
        if len(prefix) == n:
            yield [ids[k] for k in prefix]
            return
        for k in range(used + 1):
            for x in rec(prefix + [k], max(used, k + 1)):
                yield x
    return list(rec([], 0))


def weight_menu(n, full=True):
    w = [[2.0, 0.5, 3.0, 1.0, 1.25][i % 5] for i in range(n)]
    z = [0.0 if i % 2 == 0 else 3.0 for i in range(n)]
    if n == 1:
        z = [3.0]
    u = [2.5] * n
    t = [[1e-4, 40.0, 0.02, 1.0, 700.0][i % 5] for i in range(n)]
    one = [1.0] * (n - 1) + [1.5]
    return [None, w, z, u, t, one] if full else [w]


RIDGES = [None, 0, 0.7, 2, 1e-5, 60.0, 1]


def gen_small(tier, thin=1):
    """Patterns x configurations x (weights, ridge) pairs x parameters."""
    full = tier == 'thorough'
    for n in (1, 2):
        for pat in patterns(2, n):
            for cfg in configs(2, MIXSMALL):
                yield dict(pat=pat, model=cfg, spec='xy', par=['a', 'c'],
                           wr=[[0, 0], [1, 2]])
    for pat in patterns(3, 1):
        for cfg in configs(3, MIXSETS):
            yield dict(pat=pat, model=cfg, spec='xy', par=['a', 'c'],
                       wr=[[0, 0], [1, 2]])
    for pat in patterns(3, 2, ordered=full):
        for cfg in configs(3, MIXSMALL, small=not full):
            yield dict(pat=pat, model=cfg, spec='xy',
                       par=['a', 'e'] if full else ['a'],
                       wr=[[1, 2], [0, 0]] if full else [[1, 0]])
    if not full:
        big = list(patterns(3, 2))
        cf = configs(3, MIXSMALL, small=True)
        for k, pat in enumerate(big):
            for j, cfg in enumerate(cf):
                if (k + j) % (4 * thin) == 0:
                    yield dict(pat=pat, model=cfg, spec='xy', par=['c'],
                               wr=[[2, 3]])
    else:
        for pat in patterns(3, 3, ordered=False):
            for cfg in configs(3, MIXSMALL, small=True):
                yield dict(pat=pat, model=cfg, spec='xy', par=['c'],
                           wr=[[1, 3]])


OPT_PATS = [[[[2, 0, 1], 1], [[0, 2], 2]],
            [[[1, 2], 2], [[2, 1, 0], 0], [[0], 0]],
            [[[0, 1, 2], 0], [[1, 0], 1], [[2, 1], 1]]]


def gen_options(tier):
    """All weights x ridge x parameter vectors x specs x labellings on three
    patterns, for every configuration."""
    full = tier == 'thorough'
    for pat in OPT_PATS:
        n = len(pat)
        for cfg in configs(3, MIXSETS):
            for spec in ('xy', 'ixg', 'xd'):
                c = dict(cfg)
                if c['type'] == 'Mixed Logit':
                    if spec == 'xd':
                        continue
                    if spec == 'ixg':
                        c['mixing'] = ['b_y', 'b_x_[0, 1]']
                for alts, ids, vals in (
                        (None, None, 'real'),
                        ([-7, 0, 4], [-3, 0, 50][:n], 'int'),
                        ([10, 11, 300], [5, 8, 1000][:n], 'zero'),
                        ([20000001, 20000002, 20000003],
                         [3000000001, 3000000002, 3000000003][:n],
                         'steep')):
                    yield dict(pat=pat, model=c, spec=spec, alts=alts,
                               ids=ids, vals=vals,
                               mix=mixids(n, 'panel'),
                               par=['zero', 'a', 'c', 'e'] if full
                               else ['a', 'e'],
                               wr=[[w, r] for w in range(3)
                                   for r in range(4)] if full
                               else [[0, 1], [1, 0], [2, 2], [0, 3]])


def gen_mixing(tier):
    """Every assignment of 3 (thorough: 4) observations to mixing units."""
    pats = [[[[0, 1], 0], [[1, 0], 1], [[0, 1], 1]],
            [[[0, 1, 2], 2], [[2, 1], 1], [[0, 2], 0]]]
    if tier == 'thorough':
        pats.append([[[0, 1], 0], [[1, 0], 1], [[0, 1], 1], [[0], 0]])
    for pat in pats:
        for mix in partitions_of_obs(len(pat)):
            for m in (['b_x'], ['b_y'], ['b_y', 'b_x'], ['b_x', 'b_y']):
                for R in (1, 2, 3):
                    yield dict(pat=pat, mix=mix, spec='xy',
                               model={'type': 'Mixed Logit', 'mixing': m,
                                      'draws': R},
                               par=['zero', 'a', 'c'],
                               wr=[[0, 0], [1, 2], [2, 0]])


def gen_medium(tier):
    for kind in ('alts6', 'alts12', 'obs30', 'mix'):
        pat = medium(kind)
        J = max(max(s) for s, _ in pat) + 1
        for cfg in med_configs(J):
            for mk in ('own', 'panel', 'alternate', 'one'):
                if cfg['type'] != 'Mixed Logit' and mk != 'own':
                    continue
                yield dict(pat=pat, model=cfg, spec='xy',
                           mix=mixids(len(pat), mk),
                           par=['zero', 'a', 'b', 'd'],
                           wr=[[0, 0], [1, 2], [2, 0], [0, 3]])


def gen_large(tier):
    """More than 256 rows, observations and units; many alternatives."""
    for kind in ('obs300', 'alts140'):
        pat = medium(kind)
        J = max(max(s) for s, _ in pat) + 1
        for cfg in med_configs(J):
            if J > 100 and cfg['type'] not in ('MNL', 'Mixed Logit',
                                               'Nested Logit'):
                if cfg.get('iref') is not None or tier != 'thorough':
                    continue
            for mk in ('own', 'panel'):
                if cfg['type'] != 'Mixed Logit' and mk != 'own':
                    continue
                yield dict(pat=pat, model=cfg, spec='xy',
                           mix=mixids(len(pat), mk), par=['d'],
                           wr=[[1, 0]])


def gen_panels(tier):
    """Long panels: few units, so many choice situations each that the
    probability of a unit's whole sequence is as small as 1e-40..1e-250."""
    for n, J in ((60, 3), (120, 3), (90, 4)):
        pat = []
        for i in range(n):
            s = [a for a in range(J) if i == 0 or (i * 5 + a * 3) % 5]
            if i % 2:
                s = s[::-1]
            pat.append([s, s[(i * 7 + i // 3) % len(s)]])
        for mix in ([3] * n, [8 if i < 5 else 2 for i in range(n)],
                    [8 if i % 3 else 2 for i in range(n)]):
            for m, R in ((['b_y'], 2), (['b_y', 'b_x'], 3)):
                yield dict(pat=pat, model={'type': 'Mixed Logit',
                                           'mixing': m, 'draws': R},
                           spec='xy', mix=mix,
                           par=['a', 'c'] if tier != 'thorough' else
                           ['zero', 'a', 'b', 'c', 'd', 'e'],
                           wr=[[0, 0], [1, 2]])
        yield dict(pat=pat, model={'type': 'MNL'}, spec='xy',
                   par=['a', 'e'], wr=[[0, 0], [1, 2]])


def gen_steep(tier):
    """Utilities of order 10-100: choice probabilities from 1e-100 to one."""
    pats = OPT_PATS + [medium('mix')]
    for pat in pats:
        J = max(max(s) for s, _ in pat) + 1
        cfgs = configs(3, MIXSMALL, small=True) if J == 3 else med_configs(J)
        for cfg in cfgs:
            for vals in ('big', 'steep'):
                yield dict(pat=pat, model=cfg, spec='xy', vals=vals,
                           mix=mixids(len(pat), 'panel'),
                           par=['a', 'b', 'd'], wr=[[0, 0], [1, 2]])


def gen_edge(tier):
    """Extreme nest and shape parameters; parameters exactly zero."""
    full = tier == 'thorough'
    for pat in OPT_PATS + [medium('mix')]:
        J = max(max(s) for s, _ in pat) + 1
        cfgs = configs(3, MIXSETS) if J == 3 else med_configs(J)
        for cfg in cfgs:
            for par in ('edge1', 'edge2', 'half', 'flah'):
                if par[:4] == 'edge' and not Prob(dict(
                        pat=pat, model=cfg, spec='xy')).sizes()[0] + Prob(
                            dict(pat=pat, model=cfg, spec='xy')).sizes()[1]:
                    continue
                yield dict(pat=pat, model=cfg, spec='xy', par=[par],
                           mix=mixids(len(pat), 'panel'),
                           wr=[[w, r] for w in range(3) for r in range(4)]
                           if full else [[0, 0], [1, 2]])


def gen_weights(tier):
    """Uniform, very unequal and all-but-one unit weights; tiny, huge and
    integer penalties."""
    full = tier == 'thorough'
    for pat in [OPT_PATS[0], OPT_PATS[2], medium('mix')]:
        J = max(max(s) for s, _ in pat) + 1
        for cfg in (configs(3, MIXSETS, small=not full) if J == 3
                    else med_configs(J)):
            yield dict(pat=pat, model=cfg, spec='xy', par=['a', 'b'],
                       mix=mixids(len(pat), 'panel'),
                       wr=[[w, r] for w in (0, 3, 4, 5)
                           for r in (0, 4, 5, 6)] if full else
                       [[3, 0], [4, 0], [5, 0], [3, 4], [0, 5], [5, 6]])


COLS = [gen.OBS, gen.ALT, gen.CH, gen.MIX, 'x', 'y']


def dtype_menu():
    """(column types, value table)"""
    out = []
    for t in ('int8', 'int16', 'int32', 'float32', 'float64'):
        out.append((dict((c, t) for c in COLS), 'int'))
    for t in ('uint8', 'uint32', 'uint64', 'float16'):
        out.append((dict((c, t) for c in COLS), 'bit'))
    out.append(({gen.CH: 'bool'}, 'real'))
    out.append(({gen.CH: 'float64', gen.OBS: 'float64'}, 'real'))
    out.append(({gen.CH: 'uint8', 'x': 'int8', 'y': 'float32'}, 'int'))
    out.append(({gen.CH: 'int8', gen.ALT: 'int8', gen.MIX: 'float64',
                 'x': 'float32', 'y': 'float64'}, 'dyadic'))
    out.append(({gen.OBS: 'object', gen.ALT: 'object', gen.MIX: 'object'},
                'real'))
    out.append(({'x': 'int8', 'y': 'int8'}, 'byte'))
    return out


def gen_dtypes(tier, spec='xy', **kw):
    full = tier == 'thorough'
    for pat in [OPT_PATS[0], medium('mix')]:
        J = max(max(s) for s, _ in pat) + 1
        for dt, vals in dtype_menu():
            for cfg in (configs(3, MIXSETS, small=not full) if J == 3
                        else med_configs(J)):
                yield dict(dict(pat=pat, model=cfg, spec=spec, vals=vals,
                                mix=mixids(len(pat), 'own'), dtypes=dt,
                                par=['small'] if vals == 'byte' else ['a'],
                                wr=[[1, 2], [0, 0]]), **kw)


def cases(scn, ctx, constrained=None):
    """Yields (p, est, params, weights-per-unit, ridge) for a scenario."""
    p = Prob(scn)
    model = ctx.call(p.model)
    menu = weight_menu(p.nunits())
    for wi, ri in scn['wr']:
        w, ridge = menu[wi], RIDGES[ri]
        est = ctx.call(p.estimator, model, ridge=ridge,
                       constrained_pos=constrained,
                       weights=p.row_weights(w))
        for which in scn['par']:
            params = p.params(which)
            if not usable(p, params):
                continue
            yield p, est, params, w, ridge


def usable(p, params, lim=650):
    if p.type == 'Mixed Logit':
        return True
    if p.type == 'Nested Logit':
        n = p.sizes()[0]
        lam = min(1 / (1 + math.exp(-max(-700, min(700, x))))
                  for x in params[:n])
        return all(abs(sum(x * y for x, y in zip(row, params[n:]))) / lam <
                   0.9 * lim for row in p.design())
    if p.type == 'Scobit' and not conditioned(p, params):
        return False
    try:
        return all(abs(h) < lim for h in ref.utilities(p, params))
    except (OverflowError, ValueError):
        return False


def conditioned(p, params):
    """The scobit utility -log((1 + exp(-v))**s - 1) is only determined to
    eps / (s * exp(-v)) in floating point."""
    n, s, c, b, g = p.sizes()
    apos = dict((q, k) for k, q in enumerate(p.pos))
    for (i, a), row in zip(p.rows, p.design()):
        v = sum(x * y for x, y in zip(row, params[s + c:]))
        t = math.exp(params[apos[a]]) * math.log1p(math.exp(-min(v, 600)))
        if t < 1e-6:
            return False
    return True


def at_kink(p, params):
    """Asymmetric logit is not differentiable where a utility is zero."""
    if p.type != 'Asym':
        return False
    n, s, c, b, g = p.sizes()
    for row in p.design():
        if abs(sum(x * y for x, y in zip(row, params[n + s + c:]))) < 1e-9:
            return True
    return False


def reported_pats(tier):
    for s in gen_medium(tier):
        if len(s['pat']) in (5, 7):
            continue
        if len(set(s['mix'])) < 6:
            continue
        yield s


BOUNDS = {
    'small': 'all choice-set patterns with <=2 observations, <=3 '
             'alternatives x every configuration (thorough: all ordered sets, '
             'all n=3 unordered patterns)',
    'options': '3 patterns x every configuration x 3 specs x 3 labellings/'
               'value tables x parameter vectors x weights x ridge '
               '(thorough: full product)',
    'mixing': 'every assignment of 3 (thorough 4) observations to mixing '
              'units x 4 random-coefficient lists x 1-3 draws',
    'panels': 'mixed logit panels of 60-120 choice situations (sequence '
              'probabilities down to 1e-250) x 3 unit assignments',
    'dtypes': '15 combinations of column types (8-64 bit integers, '
              'floats, bool, object) x 2 datasets x model types',
    'weights': '3 datasets x model types x uniform, very unequal (1e-4 to '
               '700) and all-but-one unit weights x ridge 0.004, 1, 60',
    'large': '300 observations of 3 alternatives and 3 of 140, 12 '
             'configurations',
    'edge': '4 datasets x every configuration with extreme nest and shape '
            'parameters or with every other parameter exactly zero',
    'steep': '4 datasets x model types with utilities of order 10-100',
    'medium': '4 datasets with 4-12 alternatives or 30 observations',
}
