"""Usage: main.py <property> <quick|thorough>   |   main.py replay <file>"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))


def main():
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import pylogit
    src = os.path.realpath(os.path.join(REPO, 'src'))
    if not os.path.realpath(pylogit.__file__).startswith(src):
        print('ERROR pylogit imported from', pylogit.__file__)
        return 2
    import core
    if sys.argv[1] == 'replay':
        rec = json.load(open(sys.argv[2]))
        mod = importlib.import_module('checks.' + rec['property'].lower())
        fam = [f for f in mod.FAMILIES if f.name == rec['family']][0]
        err, ctx = core.run_one(fam, rec['scenario'])
        if err is None:
            print('not reproduced: the property holds on this scenario')
            return 0
        print('VIOLATION property=%s replay=%s\n   %s' %
              (rec['property'], sys.argv[2], err))
        return 1
    prop, tier = sys.argv[1], sys.argv[2]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    mod = importlib.import_module('checks.' + prop.lower())
    deadline = 780 if tier == 'quick' else 7000
    only = os.environ.get('VERIF_FAM')              # development only
    fams = [f for f in mod.FAMILIES if not only or f.name in only.split(',')]
    return core.run_check(prop, fams, tier, seed, mod.ASSUMPTIONS,
                          deadline)


if __name__ == '__main__':
    sys.exit(main())
