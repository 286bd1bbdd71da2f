"""Plants bugs for testing the checks:  python3 tools/plant.py SPEC.py [ID...]   or   python3 tools/plant.py --run [ID...]

SPEC.py defines BUGS, a list of dicts: id, prop, edits [(file, old, new)], needs, breaks, demo (Python code).
Each is applied to a scratch copy of /repo, must change only lines of the original repository, pass the stable
tests and fail its demonstration there; it is then written to /verif/seeded/<id>.
--run applies every seeded bug to a scratch copy and runs the check of its property against it."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'fc0533d'
PRE = '''"""Exit 0 when the property holds, non-zero when it is broken. Run with cwd /repo."""
import os, sys, tempfile, warnings
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
import metaknowledge as mk
_t = tempfile.TemporaryDirectory()
os.chdir(_t.name)

'''
SH = '''#!/bin/bash
# Exit 0 on the unchanged tree, non-zero with the patch; everything it writes goes to a temporary directory.
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def copy(name):
    w = '/tmp/plant_' + name
    shutil.rmtree(w, ignore_errors=True)
    sh('cp -a /repo ' + w)
    return w


def tests(w, name):
    t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + w).replace('/opt/vp/reports', w + '_rep')
    p = w + '_test.sh'
    open(p, 'w').write(t)
    sh('bash {} {}_o.json'.format(p, w))
    b = json.load(open('/opt/vp/BASELINE.json'))
    try:
        o = json.load(open(w + '_o.json'))
    except OSError:
        return ['no result']
    finally:
        for x in (p, w + '_o.json'):
            if os.path.exists(x):
                os.remove(x)
        shutil.rmtree(w + '_rep', ignore_errors=True)
    return sorted(set(b['stable']) - set(o['passed']))


def notBase(w):
    """Removed lines that are not of the original repository"""
    out, removed = [], 0
    for f in sh('git diff --name-only', w).stdout.split():
        blame = sh('git blame -l -s --root HEAD -- ' + f, w).stdout.split('\n')
        for l in sh('git diff -U0 -- ' + f, w).stdout.split('\n'):
            if l.startswith('@@'):
                a = l.split()[1][1:].split(',')
                start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                for i in range(start, start + n):
                    removed += 1
                    c = blame[i - 1].split()[0].lstrip('^')
                    if sh('git merge-base --is-ancestor {} {}'.format(c, BASE), w).returncode:
                        out.append(f + ': ' + blame[i - 1][40:])
    return out, removed


def plant(b):
    d = os.path.join(V, 'seeded', b['id'])
    w = copy(b['id'])
    try:
        stage = '/tmp/plant_stage_' + b['id']
        shutil.rmtree(stage, ignore_errors=True)
        os.makedirs(stage)
        open(stage + '/demo.py', 'w').write(PRE + b['demo'].strip('\n') + '\n')
        open(stage + '/demo.sh', 'w').write(SH)
        os.chmod(stage + '/demo.sh', 0o755)
        for name, text in b.get('files', {}).items():
            open(os.path.join(stage, name), 'w', encoding='utf-8').write(text)
        c = sh('bash {}/demo.sh'.format(stage), w, timeout=300)
        if c.returncode:
            return '{}: demo fails on the clean tree: {}'.format(b['id'], (c.stderr or c.stdout)[-600:])
        for f, old, new in b['edits']:
            p = os.path.join(w, 'metaknowledge', f)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1:
                return '{}: {} occurrences of {!r} in {}'.format(b['id'], s.count(old), old, f)
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        nb, removed = notBase(w)
        if nb or not removed:
            return '{}: not lines of the original: {} ({} removed)'.format(b['id'], nb, removed)
        c = sh('bash {}/demo.sh'.format(stage), w, timeout=300)
        if not c.returncode:
            return '{}: demo passes on the changed tree'.format(b['id'])
        how = (c.stderr or c.stdout).strip().split('\n')[-1]
        diff = sh('git diff', w).stdout
        bad = tests(w, b['id'])
        if bad:
            return '{}: breaks tests {}'.format(b['id'], bad[:5])
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(stage, d)
        shutil.rmtree(stage)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        return '{}: planted ({})'.format(b['id'], how[:150])
    finally:
        shutil.rmtree(w, ignore_errors=True)


def run(id, extra=()):
    d = os.path.join(V, 'seeded', id)
    m = json.load(open(d + '/meta.json'))
    w = copy('run_' + id)
    try:
        r = sh('git apply {}/patch.diff'.format(d), w)
        if r.returncode:
            return '{}: does not apply'.format(id), False
        e = dict(os.environ, MKMON_REPO=w, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), MKMON_EVIDENCE='/tmp/plant_ev')
        out = []
        hit = False
        for p in [m['property']] + list(extra):
            r = sh('python3 check.py ' + p, V, env=e)
            l = [x for x in r.stdout.split('\n') if x.startswith('VIOLATION')]
            hit = hit or (r.returncode == 1 and bool(l) and p == m['property'])
            out.append('{} exit {}: {}'.format(p, r.returncode, [x for x in r.stdout.split('\n') if x.strip()][:2][-1][:170] if r.stdout.strip() else r.stderr[-300:]))
        return '{} {} {}'.format('CAUGHT' if hit else 'MISSED', id, '; '.join(out)), hit
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    if sys.argv[1] == '--run':
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, 'seeded')))
        n = 0
        for i in ids:
            s, ok = run(i)
            n += ok
            print(s, flush=True)
        print('{} of {} caught'.format(n, len(ids)))
        return
    g = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), g)
    bugs = [b for b in g['BUGS'] if not sys.argv[2:] or b['id'] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(6) as ex:
        for s in ex.map(plant, bugs):
            print(s, flush=True)


main()
