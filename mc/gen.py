"""Scenario vocabulary: tiny choice datasets and model configurations.

Nothing here calls pylogit except `Prob.model` / `Prob.estimator`.
"""
from collections import OrderedDict
from itertools import permutations, product, combinations

import numpy as np
import pandas as pd

OBS, ALT, CH, MIX = 'obs_id', 'alt_id', 'choice', 'person'

# ------------------------------------------------------------------ values
_POOL = [0.37, -1.13, 0.91, 1.46, -0.58, 0.22, -0.77, 1.08, -1.41, 0.64,
         -0.19, 1.27, -0.93, 0.48, -1.25, 0.83, 0.11, -0.46, 1.33, -0.69,
         0.56, -1.02, 0.29, -0.34, 1.19, 0.74, -1.37, 0.41, -0.86]


def val(table, var, obs, alt):
    k = (var * 11 + obs * 7 + alt * 3 + var * obs * 5 + obs * alt) % 29
    base = _POOL[k]
    if table == 'real':
        return base
    if table == 'int':            # integers, with zeros and repeats
        return int(round(base * 2))
    if table == 'dyadic':         # exact in single precision
        return round(base * 8) / 8.0
    if table == 'byte':           # integers whose products leave int8
        return int(round(base * 14))
    if table == 'bit':            # 0 / 1, fits any type
        return 1 if base > 0.15 else 0
    if table == 'pos':
        return abs(base) + 0.05
    if table == 'zero':
        return 0.0 if (var + obs + alt) % 2 else base
    if table == 'steep':
        return base * 8.0
    if table == 'big':
        return base * 40.0
    raise KeyError(table)


VARS = ['x', 'y', 'z']

# ------------------------------------------------------------ choice sets


def ordered_sets(J, full_only=False, ordered=True):
    out = []
    for k in range(1, J + 1):
        if full_only and k < J:
            continue
        for s in combinations(range(J), k):
            for o in (permutations(s) if ordered else [s]):
                out.append(list(o))
    return out


def obs_configs(J, ordered=True, full_only=False):
    """Every (ordered choice set, chosen alternative) of one observation."""
    return [[s, c] for s in ordered_sets(J, full_only, ordered)
            for c in sorted(s)]


def patterns(J, n, ordered=True, full_only=False, cover=True,
             all_chosen=False):
    cfgs = obs_configs(J, ordered, full_only)
    for combo in product(cfgs, repeat=n):
        if cover:
            seen = set()
            for s, _ in combo:
                seen.update(s)
            if len(seen) != J:
                continue
        if all_chosen and len(set(c for _, c in combo)) != J:
            continue
        yield [list(c) for c in combo]


def ordered_partitions(items):
    """Every ordered partition of items into non-empty nests."""
    items = list(items)
    if not items:
        return [[]]
    out = []
    for k in range(1, len(items) + 1):
        for first in combinations(items, k):
            rest = [i for i in items if i not in first]
            for tail in ordered_partitions(rest):
                out.append([list(first)] + tail)
    return out


# ---------------------------------------------------------------- problems
SPECS = {
    # name: list of (variable, kind); kind is 'all_same', 'all_diff' or a
    # list of alternative positions / groups of positions
    'x': [['x', 'all_same']],
    'xy': [['x', 'all_same'], ['y', 'all_same']],
    'ix': [['intercept', [1]], ['x', 'all_same']],
    'ixg': [['intercept', [0]], ['x', [[0, 1]]], ['y', 'all_same']],
    'xd': [['x', 'all_diff']],
    'yx': [['y', 'all_same'], ['x', 'all_same']],
}


class Prob(object):
    """A dataset plus a model configuration, as named by a scenario dict."""

    def __init__(self, d):
        self.d = d
        self.pat = d['pat']
        self.n = len(self.pat)
        pos = sorted(set(a for s, _ in self.pat for a in s))
        self.pos = pos                          # positions present
        labels = d.get('alts') or list(range(1, max(pos) + 2))
        self.label = labels
        self.alt_ids = [labels[p] for p in pos]
        self.J = len(pos)
        self.ids = d.get('ids') or list(range(1, self.n + 1))
        self.mix = d.get('mix') or list(range(1, self.n + 1))
        self.table = d.get('vals', 'real')
        self.spec = d.get('spec_list') or SPECS[d.get('spec', 'x')]
        self.cfg = d.get('model', {'type': 'MNL'})
        self.type = self.cfg['type']
        rows = []
        for i, (s, c) in enumerate(self.pat):
            for a in s:
                rows.append((i, a))
        order = d.get('order')
        if order == 'rev':
            rows = rows[::-1]
        elif order == 'alt':
            rows = sorted(rows, key=lambda r: (r[1], r[0]))
        elif order == 'twist':
            rows = rows[1::2] + rows[0::2]
        elif order:
            rows = [rows[k] for k in order]
        self.rows = rows
        self.choice = [1 if self.pat[i][1] == a else 0 for i, a in rows]
        # observation / mixing unit order of first appearance
        self.obs_order = []
        self.mix_order = []
        for i, a in rows:
            if i not in self.obs_order:
                self.obs_order.append(i)
            if self.mix[i] not in self.mix_order:
                self.mix_order.append(self.mix[i])

    # --------------------------------------------------------- raw values
    def raw(self, var, i, a):
        if var == 'intercept':
            return 1.0
        v = VARS.index(var)
        ident = self.d.get('valid')        # which value row to use per obs
        k = ident[i] if ident else i
        return val(self.table, v, k, a)

    def variables(self):
        return [v for v, _ in self.spec]

    def df(self, extra=False, index=None, cols=None, floats=False):
        data = OrderedDict()
        data[OBS] = [self.ids[i] for i, a in self.rows]
        data[ALT] = [self.label[a] for i, a in self.rows]
        data[CH] = list(self.choice)
        data[MIX] = [self.mix[i] for i, a in self.rows]
        for v in VARS:
            data[v] = [self.raw(v, i, a) for i, a in self.rows]
        if 'intercept' in self.variables():
            data['intercept'] = [1.0 for _ in self.rows]
        if extra:
            data['note'] = ['n%d' % k for k in range(len(self.rows))]
        if extra == 'blank':
            data['blank'] = [float('nan') if k % 2 else k
                             for k in range(len(self.rows))]
            data['empty'] = [None for k in self.rows]
            data['high'] = [float('inf') if k == 1 else 1.0
                            for k in range(len(self.rows))]
        out = pd.DataFrame(data)
        if floats:
            out[OBS] = out[OBS].astype(float)
        for c, t in sorted((self.d.get('dtypes') or {}).items()):
            out[c] = out[c].astype(t)
        if index == 'rev':
            out.index = list(range(len(self.rows)))[::-1]
        elif index == 'dup':
            out.index = [7] * len(self.rows)
        elif index == 'str':
            out.index = ['r%d' % ((k * 5) % 97) for k in
                         range(len(self.rows))]
        if cols:
            out = out[cols]
        return out

    def kinds(self):
        """[(variable, list of groups of positions or None for all)]"""
        out = []
        for v, kind in self.spec:
            if kind == 'all_same':
                out.append((v, None))
            elif kind == 'all_diff':
                for p in self.pos:
                    out.append((v, [p]))
            else:
                for g in kind:
                    out.append((v, g if isinstance(g, list) else [g]))
        return out

    def spec_dict(self):
        out = OrderedDict()
        for v, kind in self.spec:
            if isinstance(kind, list):
                out[v] = [[self.label[p] for p in g] if isinstance(g, list)
                          else self.label[g] for g in kind]
            else:
                out[v] = kind
        return out

    def names_dict(self, shuffle=False):
        out = []
        for v, kind in self.spec:
            if kind == 'all_same':
                out.append((v, 'b_' + v))
            elif kind == 'all_diff':
                out.append((v, ['b_%s_%d' % (v, p) for p in self.pos]))
            else:
                out.append((v, ['b_%s_%s' % (v, str(g)) for g in kind]))
        if shuffle:
            out = out[::-1]
        return OrderedDict(out)

    def coef_names(self, default=False):
        out = []
        for v, kind in self.spec:
            if kind == 'all_same':
                out.append(v if default else 'b_' + v)
            elif kind == 'all_diff':
                for p in self.pos:
                    out.append('%s_%s' % (v, self.label[p]) if default else
                               'b_%s_%d' % (v, p))
            else:
                for g in kind:
                    if not default:
                        out.append('b_%s_%s' % (v, str(g)))
                    elif isinstance(g, list):
                        out.append('%s_%s' % (v, [self.label[p] for p in g]))
                    else:
                        out.append('%s_%s' % (v, self.label[g]))
        return out

    # ---------------------------------------------------------- reference
    def design(self):
        cols = self.kinds()
        return [[float(self.raw(v, i, a)) if (g is None or a in g) else 0.0
                 for v, g in cols] for i, a in self.rows]

    def nests(self):
        """Nests restricted to alternatives present."""
        return self.cfg['nests']

    def sizes(self):
        """(nests, shapes, intercepts, betas, sigmas)"""
        t = self.type
        nest = len(self.cfg['nests']) if t == 'Nested Logit' else 0
        shp = {'Asym': self.J - 1, 'Scobit': self.J,
               'Uneven': self.J}.get(t, 0)
        ic = self.J - 1 if self.cfg.get('iref') is not None else 0
        return (nest, shp, ic, len(self.kinds()),
                len(self.cfg.get('mixing') or []))

    def nparams(self):
        return sum(self.sizes())

    def params(self, which):
        """Deterministic parameter vectors."""
        n, s, c, b, g = self.sizes()
        if which == 'zero':
            return [0.0] * (n + s + c + b + g)
        if which == 'half':        # every other parameter exactly zero
            return [x if k % 2 else 0.0
                    for k, x in enumerate(self.params('d'))]
        if which == 'flah':
            return [0.0 if k % 2 else x
                    for k, x in enumerate(self.params('a'))]
        if which == 'small':
            return [0.05 * x if k >= n + s + c else x
                    for k, x in enumerate(self.params('a'))]
        if which in ('edge1', 'edge2'):
            # nests near independence or strongly correlated, large shapes
            nest, shp = {'edge1': ([9.0, 5.0, 12.0], [2.5, -2.0, 3.0]),
                         'edge2': ([-1.5, 14.0, 7.0], [-3.0, 1.5, -2.5])
                         }[which]
            return ([nest[j % 3] for j in range(n)] +
                    [shp[j % 3] for j in range(s)] +
                    self.params('d')[n + s:])
        k, scale = {'a': (3, 0.6), 'b': (11, 1.0), 'c': (19, 1.7),
                    'd': (5, 0.3), 'e': (23, 2.3)}[which]
        out = []
        for j in range(n):
            out.append(_POOL[(k + 2 * j) % 29] * 0.9 + 0.4)
        for j in range(s):
            out.append(_POOL[(k + 4 + 3 * j) % 29] * 0.5 * scale)
        for j in range(c):
            out.append(_POOL[(k + 9 + 5 * j) % 29] * 0.7 * scale)
        for j in range(b):
            out.append(_POOL[(k + 13 + 7 * j) % 29] * 1.1 * scale)
        for j in range(g):
            out.append(_POOL[(k + 17 + 11 * j) % 29] * 0.8 * scale)
        return out

    def param_list(self, params):
        """[betas, intercepts, shapes, nests] for `predict`."""
        n, s, c, b, g = self.sizes()
        a = np.array(params, dtype=float)
        return [a[n + s + c:],
                a[n + s:n + s + c] if c else None,
                a[n:n + s] if s else None,
                a[:n] if n else None]

    def param_names(self):
        n, s, c, b, g = self.sizes()
        out = []
        if n:
            out += self.nest_names()
        if s:
            out += self.shape_names()
        if c:
            out += self.intercept_names()
        names = self.coef_names()
        out += names
        out += ['Sigma ' + m for m in (self.cfg.get('mixing') or [])]
        return out

    def nest_names(self):
        # deliberately not in alphabetical order
        return ['nest_%s' % 'zayxbwcv'[k] for k in
                range(len(self.cfg['nests']))]

    def shape_names(self):
        n, s, c, b, g = self.sizes()
        if not s:
            return None
        if self.d.get('anon'):
            return ['Shape_%d' % (k + 1) for k in range(s)]
        keep = [p for k, p in enumerate(self.pos)
                if self.type != 'Asym' or k != self.cfg['sref']]
        return ['shape_%d' % p for p in keep]

    def intercept_names(self):
        if self.cfg.get('iref') is None:
            return None
        if self.d.get('anon'):      # the user gives no names
            return ['Outside_ASC_%d' % k for k in range(1, self.J)]
        return ['asc_%d' % p for k, p in enumerate(self.pos)
                if k != self.cfg['iref']]

    # ----------------------------------------------------- implementation
    def model_kwargs(self, names=True, shuffle=False):
        kw = {}
        if names:
            kw['names'] = self.names_dict(shuffle)
        t = self.type
        if t in ('Asym', 'Scobit', 'Uneven'):
            kw['shape_names'] = self.shape_names()
        if t == 'Asym':
            kw['shape_ref_pos'] = self.cfg['sref']
        if self.cfg.get('iref') is not None:
            kw['intercept_ref_pos'] = self.cfg['iref']
            kw['intercept_names'] = self.intercept_names()
        if t == 'Nested Logit':
            kw['nest_spec'] = OrderedDict(
                (nm, [self.label[p] for p in nest]) for nm, nest in
                zip(self.nest_names(), self.cfg['nests']))
        if t == 'Mixed Logit':
            kw['mixing_id_col'] = MIX
            kw['mixing_vars'] = list(self.cfg['mixing'])
        if self.d.get('anon'):
            kw.pop('shape_names', None)
            kw.pop('intercept_names', None)
        return kw

    def model(self, df=None, **kw):
        import pylogit as pl
        kwargs = self.model_kwargs()
        kwargs.update(kw)
        if df is None:
            df = self.df()
        return pl.create_choice_model(df, ALT, OBS, CH, self.spec_dict(),
                                      self.type, **kwargs)

    def mixing_positions(self):
        names = self.coef_names()
        return [names.index(m) for m in self.cfg['mixing']]

    def draws(self):
        """Fixed enumerated draws: [variable][unit][draw]."""
        R = self.cfg.get('draws', 2)
        U = len(self.mix_order)
        off = self.d.get('drawset', 0)
        return [[[_POOL[(3 * v + 5 * u + 8 * r + 13 * off + 4) % 29] * 1.3
                  for r in range(R)] for u in range(U)]
                for v in range(len(self.cfg['mixing']))]

    def estimator(self, model=None, ridge=None, constrained_pos=None,
                  weights=None):
        from pylogit import construct_estimator as ce
        from pylogit import mixed_logit_calcs as mlc
        model = model or self.model()
        if self.type == 'Mixed Logit':
            maps = model.get_mappings_for_fit()
            model.design_3d = mlc.create_expanded_design_for_mixing(
                model.design, [np.array(x) for x in self.draws()],
                model.mixing_pos, maps['rows_to_mixers'])
        est = ce.create_estimation_obj(
            model, np.zeros(self.nparams()), ridge=ridge,
            constrained_pos=constrained_pos, weights=weights)
        if hasattr(est, 'set_derivatives'):
            est.set_derivatives()
        return est

    def row_weights(self, per_unit):
        """Per-row weights from per-observation (or per mixing unit)."""
        if per_unit is None:
            return None
        if self.type == 'Mixed Logit':
            pos = dict((m, k) for k, m in enumerate(self.mix_order))
            return np.array([float(per_unit[pos[self.mix[i]]])
                             for i, a in self.rows])
        return np.array([float(per_unit[i]) for i, a in self.rows])

    def nunits(self):
        return (len(self.mix_order) if self.type == 'Mixed Logit'
                else self.n)


# ---------------------------------------------------------- configurations
def configs(J, mixing=(), small=False):
    """Every model type with every reference position and nest partition."""
    out = [{'type': 'MNL'}]
    irefs = [None] + list(range(J))
    srefs = list(range(J))
    if small:
        irefs = [None, J - 1 if J > 1 else 0]
        srefs = [0, J - 1]
    for s in srefs:
        for i in irefs:
            out.append({'type': 'Asym', 'sref': s, 'iref': i})
    for t in ('Cloglog', 'Scobit', 'Uneven'):
        for i in irefs:
            out.append({'type': t, 'iref': i})
    parts = ordered_partitions(range(J))
    if small:
        parts = [p for p in parts if len(p) <= 2]
        parts = parts[:1] + [p for p in parts if len(p) == 2][:3]
    for p in parts:
        out.append({'type': 'Nested Logit', 'nests': p})
    for m in mixing:
        for r in ((1, 2, 3) if not small else (2,)):
            out.append({'type': 'Mixed Logit', 'mixing': list(m),
                        'draws': r})
    return out


def short(cfg):
    return cfg['type']
