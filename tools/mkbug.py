#!/usr/bin/env python3
"""mkbug.py ID PROPERTY FILE(s) -- reads a description from stdin as a Python literal:
{'needs':..., 'breaks':..., 'edits': [(file, old, new), ...], 'demo': python source}
Creates /verif/seeded/ID after confirming that the tests pass with the change and that the demo tells the
two trees apart.  Works in a scratch copy."""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def original_lines(repo, diff):
    import re
    fn, ln, n = None, 0, 0
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            fn = line[6:]
        elif line.startswith('@@'):
            ln = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-') and not line.startswith('---'):
            b = sh('git blame -s -L %d,%d HEAD -- %s' % (ln, ln, fn), repo).stdout.decode()
            if b.startswith('^'):
                n += 1
            ln += 1
        elif line.startswith(' '):
            ln += 1
    return n


def main():
    bid, prop = sys.argv[1:3]
    d = ast.literal_eval(sys.stdin.read())
    out = os.path.join(VERIF, 'seeded', bid)
    tmp = tempfile.mkdtemp(prefix='bug.')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        folder = os.path.join(tmp, 'demo')
        os.mkdir(folder)
        shutil.copy(os.path.join(VERIF, 'tools', 'fake.py'), folder)
        with open(os.path.join(folder, 'demo.py'), 'w') as f:
            f.write(d['demo'])
        with open(os.path.join(folder, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nscratch=$(mktemp -d)\ntrap \'rm -rf "$scratch"\' EXIT\n'
                    'SCRATCH=$scratch PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here" timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"\n')
        os.chmod(os.path.join(folder, 'demo.sh'), 0o755)
        r = sh('bash %s/demo.sh' % folder, repo)
        if r.returncode != 0:
            print(r.stdout.decode())
            sys.exit('demo fails on the unchanged tree')
        for fn, old, new in d['edits']:
            p = os.path.join(repo, fn)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                sys.exit('%s: %d occurrences of %r' % (fn, n, old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', repo).stdout
        r = sh('bash %s/demo.sh' % folder, repo)
        if r.returncode == 0:
            sys.exit('demo passes with the change')
        print('demo with the change:', r.stdout.decode().strip().splitlines()[-1][:200])
        r = sh('/opt/venv/bin/python -m pytest -q -rA -p no:cacheprovider sunspec 2>&1', repo)
        passed = set()
        for line in r.stdout.decode().splitlines():
            if line.startswith('PASSED '):
                path, cls, test = line[7:].strip().split('::')
                passed.add('%s.%s::%s' % (path[:-3].replace('/', '.'), cls, test))
        lost = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in passed]
        if lost:
            sys.exit('tests that no longer pass: %s' % lost)
        # lines of the original repository
        ok = original_lines(repo, diff.decode())
        print('original lines touched:', ok)
        if not ok:
            sys.exit('touches no line of the original repository')
        if os.path.isdir(out):
            shutil.rmtree(out)
        shutil.copytree(folder, out)
        with open(os.path.join(out, 'patch.diff'), 'wb') as f:
            f.write(diff)
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': prop, 'needs': d['needs'], 'what_it_breaks': d['breaks']}, f, indent=1)
    finally:
        shutil.rmtree(tmp)


main()
