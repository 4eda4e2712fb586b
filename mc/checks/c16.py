"""C16: saved models are restored unchanged."""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
from itertools import product

import numpy as np
import pandas as pd
from scipy.sparse import issparse

import boot
import gen
from core import Family
from gen import Prob
from checks import c12
from checks.c06 import medium, med_configs, mixids

# given file name -> name of the file that must appear
PATHS = [('m', 'm.pkl'), ('m.pkl', 'm.pkl'), ('m.pkl.x', 'm.pkl.x.pkl'),
         ('m.pk', 'm.pk.pkl'), ('mpkl', 'mpkl.pkl'), ('a.b', 'a.b.pkl'),
         ('.pkl', '.pkl'), ('m.PKL', 'm.PKL.pkl'), ('pkl', 'pkl.pkl'),
         ('m.pkl.pkl', 'm.pkl.pkl'), ('a b', 'a b.pkl'),
         ('sub/m', 'sub/m.pkl'), ('sub.pkl/m', 'sub.pkl/m.pkl'),
         ('sub.d/../m.pkl', 'm.pkl'), ('m.pickle', 'm.pickle.pkl'),
         ('m.pkl ', 'm.pkl .pkl')]


def files(root):
    out = []
    for d, _, fs in os.walk(root):
        out += [os.path.relpath(os.path.join(d, f), root) for f in fs]
    return sorted(out)


def same(a, b):
    """Deep equality of attribute values."""
    if type(a) != type(b):
        return False
    if isinstance(a, pd.DataFrame):
        return (a.columns.tolist() == b.columns.tolist() and
                a.index.tolist() == b.index.tolist() and
                [str(t) for t in a.dtypes] == [str(t) for t in b.dtypes] and
                all(same(a[c].values, b[c].values) for c in a.columns))
    if isinstance(a, pd.Series):
        return (a.index.tolist() == b.index.tolist() and a.name == b.name and
                same(a.values, b.values))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        return all(x == y or (x != x and y != y) for x, y in
                   zip(a.ravel().tolist(), b.ravel().tolist()))
    if issparse(a):
        return same(a.toarray(), b.toarray())
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    if callable(a):
        return True                 # judged by what predictions do with it
    try:
        return bool(a == b)
    except Exception:
        return True


def public(model):
    return dict((k, v) for k, v in vars(model).items()
                if not k.startswith('_'))


def compare_attrs(ctx, got, want, msg):
    g, w = public(got), public(want)
    ctx.eq(sorted(g), sorted(w), msg + ': attributes')
    for k in w:
        ctx.check(same(g[k], w[k]), '%s: attribute %s differs' % (msg, k),
                  g[k], w[k])


def save(ctx, model, path):
    with boot.quiet():
        ctx.call(model.to_pickle, path)


def load(path):
    with open(path, 'rb') as f:
        return pickle.load(f)


def behave(ctx, p, models, pre, op, scn, what):
    want = c12.spec_result(ctx, p, c12.expected_after(pre + [op]), scn)
    for name, m in models:
        got = c12.model_op(ctx, p, m, op)
        ctx.eq(sorted(got), sorted(want), '%s %s fields' % (name, what))
        for f in want:
            ctx.check(c12.alike(got[f], want[f]), '%s of the %s model, %s '
                      'after %s' % (f, name, op, what), got[f], want[f])
        ctx.see(len(got))


def run_history(scn, ctx):
    """pre-operations, save, load, every later operation on both objects."""
    p = Prob(scn)
    model = ctx.call(p.model)
    pre = list(scn['pre'])
    for op in pre:
        c12.model_op(ctx, p, model, op)
    before = pickle.loads(pickle.dumps(public_state(model)))
    root = tempfile.mkdtemp()
    try:
        save(ctx, model, os.path.join(root, 'm'))
        ctx.check(same(public_state(model), before), 'saving altered the '
                  'original model')
        path = os.path.join(root, 'm.pkl')
        ctx.eq(files(root), ['m.pkl'], 'files written')
        restored = [('restored', load(path))]
        ctx.check(type(restored[0][1]) is type(model), 'class of the '
                  'restored model', type(restored[0][1]))
        compare_attrs(ctx, restored[0][1], model, 'restored')
        # saved again from the restored object, overwriting the same file
        again = load(path)
        save(ctx, again, path)
        restored.append(('twice restored', load(path)))
        compare_attrs(ctx, restored[1][1], model, 'twice restored')
        if not hasattr(model, 'params'):
            ctx.see('unfitted')
    finally:
        shutil.rmtree(root)
    models = restored + [('original', model)]
    hist = list(pre)
    for op in scn['post']:
        behave(ctx, p, models, hist, op, scn, 'pre-save %s' % pre)
        hist.append(op)
    compare_attrs(ctx, models[0][1], model, 'after %s' % hist)
    ctx.see(p.type, hist)


def public_state(model):
    return dict((k, v) for k, v in public(model).items() if not callable(v))


def gen_history(tier):
    pat = medium('mix')
    full = tier == 'thorough'
    for cfg in med_configs(4):
        s = dict(pat=pat, model=cfg, spec='xy', mix=mixids(len(pat), 'own'))
        ops = c12.model_ops(Prob(s))
        pres = [[]] + [[o] for o in ops]
        pres += [['fitA', 'fitB'], ['fitB', 'point'], ['fitB', 'predict']]
        if full:
            pres = [[]] + [list(h) for n in (1, 2)
                           for h in product(ops, repeat=n)]
        for pre in pres:
            posts = product(ops, repeat=2)
            if not full:        # every operation first, others behind it
                posts = [ops[k:k + 3] + ops[:max(0, k + 3 - len(ops))]
                         for k in range(len(ops))]
            for post in posts:
                yield dict(s, pre=pre, post=list(post))


def run_path(scn, ctx):
    p = Prob(scn)
    model = ctx.call(p.model)
    if scn['fitted']:
        c12.model_op(ctx, p, model, 'fitA')
    root = tempfile.mkdtemp()
    cwd = os.getcwd()
    try:
        for d in ('sub', 'sub.pkl', 'sub.d'):
            os.mkdir(os.path.join(root, d))
        given, want = scn['path']
        if scn['how'] == 'abs':
            save(ctx, model, os.path.join(root, given))
        else:
            os.chdir(root)
            save(ctx, model, given)
        ctx.eq(files(root), [os.path.normpath(want)],
               'files written for %r' % given)
        compare_attrs(ctx, load(os.path.join(root, want)), model,
                      'restored from %r' % given)
        # a second save replaces the first
        if scn['fitted']:
            c12.model_op(ctx, p, model, 'fitB')
        save(ctx, model, os.path.join(root, given)
             if scn['how'] == 'abs' else given)
        ctx.eq(files(root), [os.path.normpath(want)],
               'files written by the second save for %r' % given)
        compare_attrs(ctx, load(os.path.join(root, want)), model,
                      'restored after the second save to %r' % given)
        ctx.see(p.type, given)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root)


def gen_path(tier):
    pat = medium('mix')
    cfgs = med_configs(4)
    for k, cfg in enumerate(cfgs):
        for j, path in enumerate(PATHS):
            for how in ('abs', 'rel'):
                for fitted in (0, 1):
                    if tier != 'thorough' and cfg['type'] not in (
                            'MNL', 'Nested Logit') and \
                            (j + k + fitted + (how == 'abs')) % 2:
                        continue
                    yield dict(pat=pat, model=cfg, spec='xy',
                               mix=mixids(len(pat), 'own'), path=list(path),
                               how=how, fitted=fitted)


CHILD = r'''
import sys, json, pickle, warnings
warnings.simplefilter('ignore')
sys.path[:0] = json.loads(sys.argv[1])
import numpy as np
np.seterr(all='ignore')
with open(sys.argv[2], 'rb') as f:
    model = pickle.load(f)            # pylogit has not been imported before
from core import Ctx
from gen import Prob
from checks import c12
p = Prob(json.loads(sys.argv[3]))
out = []
for op in json.loads(sys.argv[4]):
    out.append(c12.model_op(Ctx(), p, model, op))
with open(sys.argv[5], 'wb') as f:
    pickle.dump(out, f)
'''


def run_process(scn, ctx):
    """Restored in a new interpreter that never built the model."""
    p = Prob(scn)
    model = ctx.call(p.model)
    pre = list(scn['pre'])
    for op in pre:
        c12.model_op(ctx, p, model, op)
    root = tempfile.mkdtemp()
    try:
        path = os.path.join(root, 'm.pkl')
        save(ctx, model, path)
        outp = os.path.join(root, 'out.bin')
        dirs = [x for x in sys.path if x]
        r = subprocess.run(
            [sys.executable, '-W', 'ignore', '-c', CHILD,
             json.dumps(dirs[:2]), path, json.dumps(scn),
             json.dumps(scn['post']), outp],
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        ctx.check(r.returncode == 0, 'the restored model failed in a new '
                  'process', r.stderr.decode()[-600:])
        got = load(outp)
    finally:
        shutil.rmtree(root)
    hist = list(pre)
    for op, g in zip(scn['post'], got):
        want = c12.spec_result(ctx, p, c12.expected_after(hist + [op]), scn)
        ctx.eq(sorted(g), sorted(want), 'fields in a new process')
        for f in want:
            ctx.check(c12.alike(g[f], want[f]), '%s in a new process: %s '
                      'after %s' % (f, op, hist), g[f], want[f])
        hist.append(op)
    ctx.see(p.type, hist)


def gen_process(tier):
    pat = medium('mix')
    for cfg in med_configs(4):
        for pre in ([], ['fitB']) if tier == 'thorough' else (['fitB'],):
            post = ['predict', 'report', 'given', 'point', 'fitA', 'predict']
            if cfg['type'] == 'Mixed Logit':
                post.insert(1, 'panel')
            yield dict(pat=pat, model=cfg, spec='xy',
                       mix=mixids(len(pat), 'own'), pre=pre, post=post)


FAMILIES = [
    Family('histories', gen_history, run_history,
           '12 configurations x 10 (thorough: every of length <=2) operation '
           'histories before saving x every operation followed by two others '
           '(thorough: every pair) afterwards, on the restored, the twice saved and the original object', 10),
    Family('paths', gen_path, run_path,
           '12 configurations x 16 file name forms x absolute/relative x '
           'fitted/unfitted, saved twice', 10),
    Family('new-process', gen_process, run_process,
           '12 configurations restored in a new interpreter, 6-7 operations',
           5),
]
ASSUMPTIONS = ['the reading process has the same pylogit version']
