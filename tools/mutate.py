#!/usr/bin/env python3
"""mutate.py OUT.jsonl [FRACTION [SEED]] -- small random changes of the code, one at a time, to find out what the checks do not notice.
For development only.  Works in scratch copies; run it with a copy of /verif as well (VERIF_COPY)."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

PY = '/opt/venv/bin/python'
CHECKS = os.environ.get('VERIF_COPY', '/verif')
RUNS = os.environ.get('MUT_RUNS', '1500')
ALL = ['C%02d' % i for i in range(1, 28) if i != 22]
ORDER = {
    'sunspec/core/modbus/client.py': ['C01', 'C02', 'C03', 'C04', 'C06', 'C07', 'C08', 'C05', 'C15', 'C17', 'C09', 'C19', 'C20'],
    'sunspec/core/client.py': ['C09', 'C11', 'C13', 'C14', 'C12', 'C10', 'C04', 'C06', 'C07', 'C08', 'C20', 'C16', 'C19', 'C18', 'C15', 'C17', 'C05', 'C27', 'C26'],
    'sunspec/core/device.py': ['C09', 'C25', 'C26', 'C23', 'C11', 'C13', 'C16', 'C20', 'C27', 'C04', 'C14', 'C12', 'C18', 'C19'],
    'sunspec/core/modbus/mbmap.py': ['C24', 'C01', 'C02', 'C03', 'C04', 'C09', 'C16', 'C19', 'C11', 'C13'],
    'sunspec/core/util.py': ['C11', 'C13', 'C16', 'C14', 'C09', 'C20', 'C21', 'C25', 'C23', 'C24'],
    'sunspec/core/suns.py': ['C11', 'C13', 'C09', 'C20', 'C16'],
    'sunspec/core/smdx.py': ['C09', 'C16', 'C25', 'C23'],
    'sunspec/core/pics.py': ['C23'],
    'sunspec/core/data.py': ['C21'],
    'scripts/suns.py': ['C20'],
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.LShift: ast.RShift, ast.BitAnd: ast.BitOr}


def sites(tree):
    """(node path function, description) of every possible change."""
    out = []
    for n, node in enumerate(ast.walk(tree)):
        ln = getattr(node, 'lineno', None)
        if isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
            out.append((n, ln, 'cmp'))
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, ast.Constant):
            out.append((n, ln, 'bin'))
        elif isinstance(node, ast.BoolOp):
            out.append((n, ln, 'bool'))
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
            out.append((n, ln, 'const'))
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            out.append((n, ln, 'flip'))
        elif isinstance(node, ast.If):
            out.append((n, ln, 'true'))
            out.append((n, ln, 'false'))
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue)):
            out.append((n, ln, 'drop'))
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            out.append((n, ln, 'drop'))
        elif isinstance(node, ast.ExceptHandler) and node.type is not None:
            out.append((n, ln, 'nocatch'))
        elif isinstance(node, ast.Return) and node.value is not None:
            out.append((n, ln, 'none'))
    return out


def mutate(src, n, kind):
    tree = ast.parse(src)
    for k, node in enumerate(ast.walk(tree)):
        if k == n:
            break
    was = ast.unparse(node).splitlines()[0][:100]
    if kind == 'cmp':
        node.ops[0] = CMP[type(node.ops[0])]()
    elif kind == 'bin':
        node.op = BIN[type(node.op)]()
    elif kind == 'bool':
        node.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
    elif kind == 'const':
        node.value = node.value + 1
    elif kind == 'flip':
        node.value = not node.value
    elif kind == 'true':
        node.test = ast.Constant(True)
    elif kind == 'false':
        node.test = ast.Constant(False)
    elif kind == 'none':
        node.value = None
    elif kind == 'nocatch':
        node.type = ast.Name('ZeroDivisionError', ast.Load())
    elif kind == 'drop':
        class T(ast.NodeTransformer):
            def visit(self, x):
                if x is node:
                    return ast.copy_location(ast.Pass(), x)
                return self.generic_visit(x)
        tree = T().visit(tree)
        return ast.unparse(ast.fix_missing_locations(tree)), was, 'pass'
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), was, ast.unparse(node).splitlines()[0][:100]


def run(job):
    rel, n, ln, kind = job
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        p = os.path.join(repo, rel)
        with open(p) as f:
            src = f.read()
        try:
            new, was, now = mutate(src, n, kind)
        except Exception as e:
            return None
        rec = {'file': rel, 'line': ln, 'kind': kind, 'was': was, 'now': now, 'n': n}
        with open(p, 'w') as f:
            f.write(new)
        if not rel.startswith('scripts'):
            try:
                t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'sunspec/core/test'], cwd=repo, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=60)
            except subprocess.TimeoutExpired:
                rec['result'] = 'tests'
                return rec
            if b'33 passed' not in t.stdout.splitlines()[-1]:
                rec['result'] = 'tests'
                return rec
        env = dict(os.environ, VERIF_REPO=repo, VERIF_WORKERS='1', VERIF_RUNS=RUNS, VERIF_SHRINK='0')
        order = ORDER[rel]
        for prop in order:
            try:
                c = subprocess.run([PY, 'check.py', prop], cwd=CHECKS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240)
            except subprocess.TimeoutExpired:
                rec.setdefault('slow', []).append(prop)
                continue
            if c.returncode == 1:
                rec['result'] = prop
                rec['why'] = [x for x in c.stdout.decode().splitlines() if 'violation in run' in x][:1]
                return rec
            if c.returncode != 0:
                rec.setdefault('broken', []).append([prop, c.stdout.decode()[-400:]])
        rec['result'] = 'survived'
        return rec
    finally:
        shutil.rmtree(d)


def main():
    out, frac, seed = sys.argv[1], float((sys.argv[2:] or ['1'])[0]), (sys.argv[3:] or ['1'])[0]
    rng = random.Random(seed)
    jobs = []
    for rel in ORDER:
        with open('/repo/' + rel) as f:
            src = f.read()
        for n, ln, kind in sites(ast.parse(src)):
            jobs.append((rel, n, ln, kind))
    rng.shuffle(jobs)
    jobs = jobs[:int(len(jobs) * frac)]
    print(len(jobs), 'mutants', flush=True)
    with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '7'))) as ex, open(out, 'a') as f:
        for fut in as_completed([ex.submit(run, j) for j in jobs]):
            rec = fut.result()
            if rec:
                f.write(json.dumps(rec) + '\n')
                f.flush()


if __name__ == '__main__':
    main()
