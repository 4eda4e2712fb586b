"""Development tool: turns bug descriptions into /verif/seeded entries.

python3 tools/plant.py BUGFILE [id ...]    (BUGFILE defines BUGS, PRELUDE)

For each bug: makes a scratch copy of /repo, applies the edits, confirms the
repository's tests pass, the demo passes without and fails with the change,
writes seeded/<id>/ and runs the property's quick check on the changed copy.
Not used by any check.
"""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/pypy-venv/bin/python'
DEMO_SH = '''#!/bin/bash
# cwd: the repository. exit 0: behaviour intact; nonzero: broken.
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/pypy-venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


def one(bug, prelude, procs, runcheck=True):
    bid = bug['id']
    d = '/tmp/plant/' + bid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', d])
    out = [bid]
    try:
        for f, old, new in bug['edits']:
            p = os.path.join(d, 'src/pylogit', f)
            s = open(p).read()
            if s.count(old) != 1:
                return '%s: edit matches %d times: %r' % (bid, s.count(old),
                                                          old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', '-C', d, 'diff'], check=True).stdout
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
        sd = os.path.join(VERIF, 'seeded', bid)
        os.makedirs(sd, exist_ok=True)
        open(sd + '/patch.diff', 'wb').write(diff)
        open(sd + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(sd + '/demo.sh', 0o755)
        open(sd + '/demo.py', 'w').write(prelude + bug['demo'])
        json.dump(dict(property=bug['property'], needs=bug['needs'],
                       what_it_breaks=bug['breaks']),
                  open(sd + '/meta.json', 'w'), indent=1)
        a = sh(['bash', sd + '/demo.sh'], cwd='/repo', env=env)
        b = sh(['bash', sd + '/demo.sh'], cwd=d, env=env)
        out.append('demo %d/%d' % (a.returncode, b.returncode))
        if a.returncode or not b.returncode:
            out.append('DEMO BAD ' + a.stdout.decode()[-600:] + '|' +
                       b.stdout.decode()[-300:])
            return ' '.join(out)
        t = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p',
                'no:xdist', '--disable-warnings', '-W',
                'ignore:np.find_common_type is deprecated:DeprecationWarning',
                'tests'], cwd=d, env=dict(env, PYTHONPATH=d + '/src'))
        ok = t.returncode == 0 and b'266 passed' in t.stdout
        out.append('tests %s' % ('ok' if ok else 'FAIL'))
        if not ok:
            out.append(t.stdout.decode()[-400:])
            return ' '.join(out)
        if runcheck:
            e = dict(env, VERIF_REPO=d, VERIF_EVID='/tmp/plant/ev_' + bid,
                     VERIF_PROCS=str(procs), VERIF_MAX_REPORTED='1')
            caught = []
            for prop in [bug['property']] + bug.get('also', []):
                r = sh(['bash', VERIF + '/run.sh', prop, 'quick'], env=e)
                txt = r.stdout.decode()
                v = re.search(r'^VIOLATION property=(\S+)', txt, re.M)
                if r.returncode == 1 and v:
                    caught.append(prop)
                    if prop == bug['property']:
                        m = txt.strip().splitlines()
                        out.append('[%s]' % ' / '.join(m[-3:])[:240])
                elif r.returncode != 0:
                    caught.append('%s:rc%d' % (prop, r.returncode))
            out.append('CAUGHT by %s' % ','.join(caught) if caught
                       else '*** MISSED')
        return ' '.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree('/tmp/plant/ev_' + bid, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:]
    bugs = [b for b in ns['BUGS'] if not ids or b['id'] in ids]
    with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "4"))) as ex:
        for r in ex.map(lambda b: one(b, ns['PRELUDE'], 2), bugs):
            print(r, flush=True)


if __name__ == '__main__':
    main()
