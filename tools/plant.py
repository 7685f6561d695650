"""Development tool: plant.py SPEC.py [id ...]: turns bug descriptions into seeded/<id>/ after confirming them, and runs the check of
the property against each. SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]."""
import json, os, re, runpy, shutil, subprocess, sys
from multiprocessing import Pool
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import mutate
BASE = 'd023987'
DEMO = '#!/bin/sh\n# cwd: the repository\nhere=$(cd "$(dirname "$0")" && pwd)\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -W ignore "$here/demo.py"\n'


def original_lines(name):
    out = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '-l', 'ezodf/' + name], text=True).splitlines()
    return [l.startswith('^') or l.startswith(BASE) for l in out]


def one(bug):
    work = os.path.join('/tmp/plant', bug['id'])
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree('/repo', work, ignore=shutil.ignore_patterns('__pycache__', 'docs'), symlinks=True)
    msgs = []
    try:
        for name, old, new in bug['edits']:
            p = os.path.join(work, 'ezodf', name)
            s = open(p).read()
            if s.count(old) != 1:
                return bug['id'], 'old text occurs %d times in %s' % (s.count(old), name)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', work, 'diff', '--', 'ezodf'], text=True)
        # the removed lines are of the original repository
        cur, line = None, 0
        removed = orig = 0
        for l in diff.splitlines():
            if l.startswith('--- a/ezodf/'):
                cur = original_lines(l[len('--- a/ezodf/'):])
            elif l.startswith('@@'):
                line = int(re.match(r'@@ -(\d+)', l).group(1))
            elif l.startswith('-') and not l.startswith('---'):
                removed += 1
                orig += cur[line - 1]
                line += 1
            elif l.startswith(' '):
                line += 1
        if not orig or removed != orig:
            msgs.append('ONLY %d of %d removed lines are original' % (orig, removed))
        if not mutate.run_tests(work):
            return bug['id'], 'TESTS FAIL ' + ' '.join(msgs)
        d = os.path.join(HERE, 'seeded', bug['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(bug['demo'].strip() + '\n')
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = subprocess.run(['sh', os.path.join(d, 'demo.sh')], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        b = subprocess.run(['sh', os.path.join(d, 'demo.sh')], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if a.returncode != 0 or b.returncode == 0:
            msgs.append('DEMO clean=%d planted=%d: %s | %s' % (a.returncode, b.returncode, a.stdout[-300:], b.stdout[-200:]))
        env = dict(os.environ, VERIF_REPO=work)
        c = subprocess.run(['./check', bug['property']], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        msgs.append('%s rc=%d %s' % ('caught' if c.returncode == 1 else 'MISSED', c.returncode, c.stdout[-330:].replace('\n', ' ') if c.returncode == 1 else c.stdout[-150:]))
        return bug['id'], ' '.join(msgs)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    if sys.argv[2:]:
        bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
    with Pool(3) as p:
        for i, m in p.imap(one, bugs):
            print('%-24s %s' % (i, m), flush=True)
