"""Writes /verif/seeded/<id>/ from tools/seeds_def.py and tries each planted change in a scratch copy of /repo.

usage: seeds.py [--check] [id ...]      (--check also runs the property's check against each)
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from seeds_def import SEEDS
PY = '/opt/venv/bin/python'
BASE = json.load(open('/opt/vp/BUILD.json'))['repo_commit']
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/opt/vp/no-pycache', PYTHONHASHSEED='0', VERIF_SEED='1', VERIF_TIER='quick')
ENV.pop('PYTHONPATH', None)


def sh(cmd, cwd, env=None, t=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, 'TIMEOUT %s' % e.stdout


def one(s, check):
    out = os.path.join(H, 'seeded', s['id'])
    tmp = tempfile.mkdtemp(prefix='plant_')
    try:
        r = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        sh(['git', 'checkout', '-q', '--', '.'], r)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        rc0, o0 = sh(['bash', out + '/demo.sh'], r, t=300)
        if rc0:
            return s['id'], 'BAD: demo fails on the unchanged tree: ' + o0[-300:]
        for f, old, new in s['edits']:
            p = os.path.join(r, 'necroassembler', f)
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], 'BAD: %d matches in %s of %r' % (t.count(old), f, old[:60])
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', 'diff'], r)[1]
        open(out + '/patch.diff', 'w').write(diff)
        # the removed lines must be of the original repository
        mine = 0
        orig = 0
        for f in {e[0] for e in s['edits']}:
            d = sh(['git', 'diff', '-U0', '--', 'necroassembler/' + f], r)[1]
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n == 0:
                    continue
                b = sh(['git', 'blame', '-s', '-L', '%d,%d' % (a, a + n - 1), 'HEAD', '--', 'necroassembler/' + f], '/repo')[1]
                b0 = sh(['git', 'blame', '-s', '-l', '-L', '%d,%d' % (a, a + n - 1), BASE + '..HEAD', '--', 'necroassembler/' + f], '/repo')[1]
                for ln in b0.splitlines():
                    if ln.startswith('^'):
                        orig += 1
                    else:
                        mine += 1
        note = '' if not mine else ' [changes %d own lines]' % mine
        if not orig:
            note += ' [NO ORIGINAL LINE CHANGED]'
        rc, o = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=10', 'tests'], r, env=dict(ENV, PYTHONPATH=r))
        if rc:
            return s['id'], 'BAD: tests fail with the patch: ' + o[-300:]
        rc1, o1 = sh(['bash', out + '/demo.sh'], r, t=300)
        if rc1 == 0:
            return s['id'], 'BAD: demo passes with the patch'
        if check:
            v = os.path.join(tmp, 'verif')
            os.makedirs(v)
            for n in ('checks', 'mc', 'known_findings.json', 'properties.jsonl', 'MANIFEST.json'):
                if os.path.isdir(os.path.join(H, n)):
                    shutil.copytree(os.path.join(H, n), os.path.join(v, n))
                else:
                    shutil.copy(os.path.join(H, n), v)
            caught = []
            for pid in [s['property']] + (s.get('also') or []):
                rc, o = sh([PY, 'checks/%s.py' % pid.lower()], v, env=dict(ENV, VERIF_REPO=r))
                if rc == 1 and 'VIOLATION property=%s ' % pid in o:
                    m = re.search(r'VIOLATION.*', o)
                    caught.append(pid)
                else:
                    caught.append('%s:MISSED rc=%d %s' % (pid, rc, o[-200:].replace('\n', ' / ')))
            return s['id'], 'ok ' + ' '.join(caught) + note
        return s['id'], 'ok' + note
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    check = '--check' in sys.argv
    todo = [s for s in SEEDS if not args or any(s['id'].startswith(a) for a in args)]
    with ThreadPoolExecutor(2 if check else 6) as ex:
        for i, r in ex.map(lambda s: one(s, check), todo):
            print(i, r, flush=True)
    ids = {s['id'] for s in SEEDS}
    for d in os.listdir(H + '/seeded'):
        if d not in ids:
            print('stale', d)
