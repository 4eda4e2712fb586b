"""C18: panel prediction conditions on each unit's own past choices."""
from itertools import permutations, product

import numpy as np

import gen
import ref
from core import Family
from gen import Prob
from checks.c06 import medium, mixids, seed_draws


def fitted(p, params, ctx):
    """A model whose stored estimates are exactly `params` (all held fixed, so
    that the covariance exists for any number of units)."""
    m = ctx.call(p.model)
    ctx.call(m.fit_mle, np.array(params), num_draws=2, seed=11, maxiter=0,
             print_res=False, constrained_pos=list(range(p.nparams())))
    return m


def expected(p, q, params, R, seed):
    """p: estimation data, q: new data."""
    q.cfg = dict(q.cfg, draws=R)
    draws = seed_draws(q, seed)
    kern = ref.kernel_probs(q, params, draws)          # [draw][row]
    pos = dict((m, k) for k, m in enumerate(q.mix_order))
    w = {}
    for m in q.mix_order:
        if m not in p.mix:
            w[m] = [1.0 / R] * R
            continue
        # the unit's past choices under the draws it has in the new data
        keep = [i for i in range(p.n) if p.mix[i] == m]
        one = Prob(dict(p.d, pat=[p.pat[i] for i in keep],
                        ids=[p.ids[i] for i in keep],
                        mix=[m] * len(keep),
                        valid=[(p.d.get('valid') or range(p.n))[i]
                               for i in keep], order=None))
        one.cfg = dict(p.cfg, draws=R)
        one.kinds = p.kinds                # all alternatives of the model
        k = ref.kernel_probs(one, params, [[d[pos[m]]] for d in draws])
        seq = []
        for d in range(R):
            x = 1.0
            for r, (i, a) in enumerate(one.rows):
                if one.choice[r]:
                    x *= k[d][r].real
            seq.append(x)
        tot = sum(seq)
        w[m] = [x / tot for x in seq]
    long_ = [sum(w[q.mix[i]][d] * kern[d][r].real for d in range(R))
             for r, (i, a) in enumerate(q.rows)]
    chosen = [sum(long_[r] for r, (o, a) in enumerate(q.rows)
                  if o == i and q.choice[r]) for i in q.obs_order]
    return long_, chosen


def run(scn, ctx):
    p = Prob(scn['past'])
    model = scn['past']['model']
    params = p.params(scn.get('par', 'a'))
    m = fitted(p, params, ctx)
    for new in scn['new']:
        q = Prob(dict(new, model=model, spec=scn['past']['spec'],
                      vals=scn['past'].get('vals', 'real')))
        full = q.df(index=new.get('index'), extra=True)

        def df():
            # the constant column need not be in the new data
            return full.drop(columns=['intercept']) if new.get('noicpt') \
                else full
        for R, seed in scn['draws']:
            want, ch = expected(p, q, params, R, seed)
            got = ctx.call(m.panel_predict, df(), R, seed=seed)
            ctx.close(got, want, 'long probabilities, new units %s' % q.mix,
                      rtol=1e-8)
            a, b = ctx.call(m.panel_predict, df(), R, seed=seed,
                            choice_col=gen.CH)
            ctx.close(b, want, 'long probabilities with a choice column',
                      rtol=1e-8)
            ctx.close(a, ch, 'chosen probabilities', rtol=1e-8)
            c = ctx.call(m.panel_predict, df(), R, seed=seed,
                         choice_col=gen.CH, return_long_probs=False)
            ctx.close(c, ch, 'chosen probabilities only', rtol=1e-8)
            if R == scn['draws'][0][0]:
                # choices in a column the model was not built with
                last = {}
                for r, (i, x) in enumerate(q.rows):
                    last[i] = r
                d = df().copy()
                d['picked'] = [int(r in last.values())
                               for r in range(len(q.rows))]
                a, b = ctx.call(m.panel_predict, d, R, seed=seed,
                                choice_col='picked')
                ctx.close(a, [want[last[i]] for i in q.obs_order],
                          'chosen probabilities, other choices', rtol=1e-8)
                ctx.close(b, want, 'long probabilities, other choices',
                          rtol=1e-8)
            tot = {}
            for r, (i, x) in enumerate(q.rows):
                tot[i] = tot.get(i, 0.0) + float(got[r])
            for i in tot:
                ctx.check(abs(tot[i] - 1) < 1e-8, 'panel probabilities do '
                          'not sum to one', tot)
            if not set(q.mix) & set(p.mix):
                plain = ctx.call(m.predict, df(), num_draws=R, seed=seed)
                ctx.close(plain, got, 'unseen units: ordinary prediction')
            ctx.see(got)


UNITS = [7, 2, 9]
PAST = [[[[0, 1], 0], [[1, 0], 1], [[0, 1], 1]],
        [[[0, 1, 2], 2], [[2, 1], 1], [[0, 2, 1], 0]]]


def news(J, full):
    sets = [[list(range(J)), 0], [list(range(J))[::-1], 1],
            [list(range(J))[1:] + [0], J - 1]]
    for ids in product([7, 2, 9, 5], repeat=2):
        yield dict(pat=sets[:2], mix=list(ids), ids=[41, 12],
                   valid=[5, 3])
    big = [20000003, 20000001, 20000002]
    yield dict(pat=sets, mix=big, ids=[3000000003, 3000000001, 3000000002],
               valid=[4, 9, 6])
    for ids in product([7, 2, 5], repeat=3):
        if full or len(set(ids)) > 1:
            yield dict(pat=sets, mix=list(ids), ids=[3, 1, 2],
                       valid=[4, 9, 6])


def gen_overlap(tier):
    """Every assignment of 3 past choice situations to units x every
    assignment of 2-3 new ones."""
    full = tier == 'thorough'
    for pi, pat in enumerate(PAST):
        J = max(max(s) for s, _ in pat) + 1
        for mix in product(UNITS, repeat=3):
            if not full and pi == 1 and mix[0] == 9:
                continue
            allnew = list(news(J, full))
            for lo in range(0, len(allnew), 8):
                cfgs = [{'type': 'Mixed Logit', 'mixing': ['b_y', 'b_x'],
                         'draws': 2}]
                if full:
                    cfgs.append({'type': 'Mixed Logit', 'mixing': ['b_x'],
                                 'draws': 2})
                for cfg in cfgs:
                    yield dict(past=dict(pat=pat, mix=list(mix), spec='xy',
                                         model=cfg), new=allnew[lo:lo + 8],
                               draws=[[2, 5]] if lo % 16 else [[3, 8]])


def gen_orders(tier):
    """Row orders of the new data, labels, ids, draws and specifications."""
    pats = PAST[1]
    new = [[[2, 0, 1], 1], [[0, 1, 2], 0]]
    # units in terms of these: small, and neighbouring ones beyond 2**24
    big = {7: 20000003, 2: 20000001, 9: 20000004, 5: 20000002}
    for mix in ([7, 2, 7], [2, 2, 7], [9, 7, 2], 'big'):
        for newmix in ([2, 7], [7, 7], [5, 2]):
            if mix == 'big' or mix[0] > 99:
                mix = [big[u] for u in (7, 2, 9)]
                newmix = [big[u] for u in newmix]
            ns = [dict(pat=new, mix=newmix, ids=[8, 3], valid=[5, 3],
                       order=list(o)) for o in permutations(range(6))]
            step = 60 if tier == 'quick' else 24
            for lo in range(0, len(ns), step):
                part = ns[lo:lo + step]
                if tier == 'quick':
                    part = part[::5]
                yield dict(past=dict(pat=pats, mix=mix, spec='xy',
                                     model={'type': 'Mixed Logit',
                                            'mixing': ['b_y'], 'draws': 2}),
                           new=part, draws=[[2, 3]])
    for spec, mixing in (('xy', ['b_x']), ('xy', ['b_y']),
                         ('xy', ['b_x', 'b_y']), ('xy', ['b_y', 'b_x']),
                         ('ixg', ['b_y', 'b_x_[0, 1]'])):
        for vals in ('real', 'int', 'zero'):
            for index in (None, 'rev', 'dup'):
                for par in (('a', 'c') if tier != 'quick' else
                            ('a',) if index else ('c',)):
                    cfg = {'type': 'Mixed Logit', 'mixing': mixing,
                           'draws': 2}
                    yield dict(
                        past=dict(pat=pats, mix=[9, 2, 9], spec=spec,
                                  vals=vals, model=cfg, ids=[-4, 0, 90],
                                  alts=[-3, 0, 12]),
                        par=par,
                        new=[dict(pat=new, mix=mx, ids=[0, -4],
                                  alts=[-3, 0, 12], valid=[6, 2],
                                  order=o, index=index,
                                  noicpt=spec == 'ixg' and o is not None)
                             for mx in ([2, 9], [9, 9], [4, 5], [9, 4])
                             for o in (None, 'rev', 'alt', 'twist')] +
                            # not all alternatives appear in the new data
                            [dict(pat=few, mix=mx, ids=[5, 3],
                                  alts=[-3, 0, 12], valid=[1, 2],
                                  order=o, index=index)
                             for few in ([[[1, 0], 0], [[0, 1], 1]],
                                         [[[2], 2], [[2, 1], 2]])
                             for mx in ([2, 9], [9, 4])
                             for o in (None, 'alt')],
                        draws=[[1, 7], [2, 7], [4, 1]])


def gen_ids(tier):
    """Identifiers of every size and column type, equal or different in the
    past and the new data."""
    big = 2 ** 60
    maps = [[7, 2, 9, 5], [big + 3, big + 1, big + 4, big + 2],
            [2 ** 32 + 7, 7, 2 ** 33 + 7, 2 ** 34 + 7],
            [-3, 0, 3, -7], [0, 1, 2, 3], [70000, 4464, 135536, 201072]]
    words = ['p7', 'p07', 'p', 'q']
    new = [[[2, 0, 1], 1], [[0, 1, 2], 0], [[1, 2, 0], 2]]
    cfg = {'type': 'Mixed Logit', 'mixing': ['b_y', 'b_x'], 'draws': 2}
    todo = []
    for u in maps:
        todo.append((u, {}, {}))
        todo.append((u, {gen.MIX: 'object'}, {gen.MIX: 'object'}))
        if max(u) < 10:
            for t in ('int8', 'float64', 'float32'):
                todo.append((u, {gen.MIX: t}, {gen.MIX: t}))
                todo.append((u, {gen.MIX: t}, {}))
                todo.append((u, {}, {gen.MIX: t}))
    todo.append((words, {}, {}))
    for u, dp, dn in todo:
        for pastmix in ([0, 1, 0], [1, 2, 1], [2, 0, 1]):
            for order in (None, 'twist'):
                ns = [dict(pat=new, mix=[u[k] for k in nm], ids=[8, 3, 11],
                           valid=[5, 3, 1], order=order, dtypes=dn)
                      for nm in ([1, 0, 3], [3, 2, 1], [0, 0, 2], [3, 3, 3])]
                yield dict(past=dict(pat=PAST[1], mix=[u[k] for k in
                                                       pastmix],
                                     spec='xy', model=cfg, dtypes=dp),
                           new=ns, draws=[[3, 2]])


def gen_long(tier):
    """Longer panels: many past choice situations, choice sets that miss
    alternatives, interleaved units."""
    for kind in ('mix', 'obs30', 'alts6'):
        pat = medium(kind)
        n = len(pat)
        J = max(max(s) for s, _ in pat) + 1
        for pk in ('panel', 'alternate', 'one', 'own'):
            mix = mixids(n, pk)
            seen = []
            for x in mix:
                if x not in seen:
                    seen.append(x)
            new = []
            for k in range(min(6, n)):
                mm = (seen[::-1] + [777, 778])
                newmix = [mm[(k + j) % len(mm)] for j in range(6)]
                new.append(dict(pat=[[list(range(J)), j % J]
                                     for j in range(6)], mix=newmix,
                                ids=[6, 5, 4, 3, 2, 1],
                                valid=[2, 4, 6, 8, 1, 3],
                                order=[None, 'rev', 'twist'][k % 3]))
            yield dict(past=dict(pat=pat, mix=mix, spec='xy',
                                 model={'type': 'Mixed Logit',
                                        'mixing': ['b_y', 'b_x'],
                                        'draws': 2}),
                       par='d', new=new, draws=[[3, 2], [10, 3]] +
                       ([[150, 4], [600, 5]] if kind == 'mix' and
                        pk in ('panel', 'one') else []))
    # more than 256 units, past and new
    pat = medium('obs300')
    mix = [3000 - 7 * ((i * 11) % 300) for i in range(300)]
    new = [dict(pat=[[[0, 1, 2], j % 3] for j in range(280)],
                mix=[3000 - 7 * (j + 15) for j in range(280)],
                ids=list(range(280)), valid=[j % 50 for j in range(280)],
                order=None)]
    yield dict(past=dict(pat=pat, mix=mix, spec='xy',
                         model={'type': 'Mixed Logit',
                                'mixing': ['b_y', 'b_x'], 'draws': 2}),
               par='d', new=new, draws=[[3, 2]])


FAMILIES = [
    Family('overlap', gen_overlap, run,
           'every assignment of 3 past choice situations to 3 units x every '
           'assignment of 2 new ones to 3 known and one new unit and of 3 to '
           '2 known and one new unit; two choice-set patterns; all return '
           'options', 50),
    Family('orders', gen_orders, run,
           'row permutations of the new data (thorough: all 720), row '
           'orders, labels, index kinds, value tables, specifications, '
           'draws 1/2/4', 50),
    Family('unit-ids', gen_ids, run,
           'mixing unit ids of 1 to 61 bits, negative, narrow, float, object '
           'and text, with equal or different column types in the past and '
           'the new data x assignments of units x row orders', 2),
    Family('panels', gen_long, run,
           'panels of 7-30 past choice situations with incomplete choice '
           'sets, 4 panel layouts, 6 orders of known and new units', 10),
]
ASSUMPTIONS = ['draws belong to the units of the new data, in order of first '
               'appearance, and are the ones get_normal_draws returns for '
               'the seed',
               'past choice sequences have a probability above 1e-300 (see '
               'the known finding of C08)']
