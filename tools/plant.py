#!/usr/bin/env python3
"""Make /verif/seeded/<id>/ from specs: a file defining BUGS = [dict(id, prop,
file, edits=[(old, new)], demo, needs, breaks)].

Each bug is applied to /repo, the stable tests and its demonstration are run
with and without it, and it is undone; only a bug which the tests miss and its
demonstration shows is kept.
"""
import json
import os
import runpy
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO = '''#!/bin/bash
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
HEAD = '''import atexit
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
tmp = tempfile.mkdtemp()
atexit.register(shutil.rmtree, tmp, ignore_errors=True)
os.chdir(tmp)


def write(path, text):
    os.makedirs(os.path.dirname(os.path.abspath(path)), exist_ok=True)
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)
    return path


def check(got, want):
    if got != want:
        print('got     ', repr(got))
        print('expected', repr(want))
        sys.exit(1)


'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def tests():
    if sh('bash /opt/vp/build.sh').returncode:
        return 'does not build'
    sh('bash /opt/vp/test.sh /tmp/plant.json')
    base = json.load(open('/opt/vp/BASELINE.json'))
    out = json.load(open('/tmp/plant.json'))

    def s(x):
        for k in ('passed', 'pass', 'stable', 'tests'):
            if k in x:
                return x[k]
        return x
    miss = [t for t in s(base) if t not in set(s(out))]
    return '' if not miss else f'{len(miss)} tests fail: {miss[:3]}'


def main():
    only = sys.argv[2:]
    for b in runpy.run_path(sys.argv[1])['BUGS']:
        if only and b['id'] not in only:
            continue
        d = os.path.join(HERE, 'seeded', b['id'])
        assert not sh(f'git -C {REPO} status --porcelain').stdout, 'dirty'
        blame = {}
        path = os.path.join(REPO, b['file'])
        lines = sh(f'git -C {REPO} blame -s {b["file"]}').stdout.split('\n')
        src = open(path).read()
        new = src
        for old, rep in b['edits']:
            assert new.count(old) == 1, (b['id'], new.count(old), old)
            new = new.replace(old, rep)
        os.makedirs(d, exist_ok=True)
        demo = HEAD + b['demo'].strip('\n') + '\n'
        open(os.path.join(d, 'demo.py'), 'w').write(demo)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        clean = sh(f'bash {d}/demo.sh', cwd=REPO)
        open(path, 'w').write(new)
        try:
            diff = sh(f'git -C {REPO} diff').stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            # the removed lines must be of the original repository
            mine = [lines[n - 1] for n in removed(diff)
                    if not lines[n - 1].startswith('^')]
            t = tests()
            bad = sh(f'bash {d}/demo.sh', cwd=REPO)
        finally:
            sh(f'git -C {REPO} checkout -- .')
        ok = not clean.returncode and bad.returncode and not t and not mine
        print(b['id'], 'OK' if ok else 'REJECTED', t,
              '' if not clean.returncode else 'clean demo fails: '
              + (clean.stdout + clean.stderr)[-300:],
              '' if bad.returncode else 'demo does not see it',
              f'removes added lines: {mine}' if mine else '', flush=True)
        if not ok:
            sh(f'mkdir -p /tmp/rejected; rm -rf /tmp/rejected/{b["id"]};'
               f' mv {d} /tmp/rejected/')


def removed(diff):
    n = 0
    for line in diff.split('\n'):
        if line.startswith('@@'):
            n = int(line.split()[1].split(',')[0][1:])
        elif line.startswith('---') or line.startswith('+++'):
            continue
        elif line.startswith('-'):
            yield n
            n += 1
        elif line.startswith(' '):
            n += 1


main()
