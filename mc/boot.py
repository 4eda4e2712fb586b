"""Helpers shared by the bootstrap checks."""
import contextlib
import os
import sys
from collections import OrderedDict

import numpy as np

import gen
from gen import Prob
from checks.c06 import medium, med_configs, mixids


def mnl_for(p, df):
    """The multinomial logit used for starting values: outside intercepts (if
    any) become intercepts in the index, under the same names."""
    import pylogit as pl
    spec, names = OrderedDict(), OrderedDict()
    if p.cfg.get('iref') is not None:
        df = df.copy()
        df['intercept'] = 1.0
        spec['intercept'] = [p.label[q] for k, q in enumerate(p.pos)
                             if k != p.cfg['iref']]
        names['intercept'] = p.intercept_names()
    s, n = p.spec_dict(), p.names_dict()
    for v in s:
        spec[v], names[v] = s[v], n[v]
    return pl.create_choice_model(df, gen.ALT, gen.OBS, gen.CH, spec, 'MNL',
                                  names=names)


def mnl_size(p):
    n, s, c, b, g = p.sizes()
    return c + b


@contextlib.contextmanager
def quiet():
    """Silences the progress bars and time stamps of pylogit.bootstrap."""
    old, olde = sys.stdout, sys.stderr
    with open(os.devnull, 'w') as f:
        sys.stdout = sys.stderr = f
        try:
            yield
        finally:
            sys.stdout, sys.stderr = old, olde
