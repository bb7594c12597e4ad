# -*- coding: utf-8 -*-
"""Mutation campaign: which small changes pass the tests, and which of these do the checks find?

    python3-vt tools/mutate.py OUT.jsonl [--n 300] [--seed 1] [--jobs 6] [--cov COVDIR] [--files a.py,b.py]

Works on copies of /repo under a scratch directory it removes. COVDIR has <check>.<pid>.json files with the lines
every check executes; only these are mutated, and only these checks are run. Development tool, not used by any check.
"""
import argparse
import ast
import concurrent.futures
import glob
import json
import os
import random
import shutil
import subprocess
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['geometry/SR_point.py', 'geometry/SR_line.py', 'geometry/SR_polygon.py', 'geometry/SR_polygon_group.py',
         'geometry/additional_stuff.py', 'SR_Vessel/SR_hauptteile.py']
PYPY = '/opt/pypyvenv/bin/python'
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='],
       ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*']}
ATTR = {'i': 'j', 'j': 'i', 'x': 'y', 'y': 'x', 'append_point_at_end': 'append_point_at_beginning', 'internal': 'external',
        'external': 'internal'}
NAME = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'sin': 'cos', 'cos': 'sin'}
SKIP = ('plot', 'show', 'run', '__str__', 'linenum', 'graphical_testing', '_plot')


def mutants(path, text, lines):
    tree = ast.parse(text)
    starts = [0]
    for l in text.split('\n'):
        starts.append(starts[-1] + len(l.encode()) + 1)
    data = text.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(a, b, new, line, what):
        out.append((path, line, what, a, b, new))

    def src(n):
        a, b = pos(n)
        return data[a:b].decode()

    def visit(n, skip):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and (n.name in SKIP or 'plot' in n.name):
            return
        line = getattr(n, 'lineno', None)
        live = line in lines if line else False
        if isinstance(n, ast.Call) and 'plot' in src(n)[:40]:
            return
        if isinstance(n, (ast.Assert, ast.JoinedStr)) or (isinstance(n, ast.Call) and src(n).startswith('print')):
            return
        if live:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r = n.left, n.comparators[0]
                for op in CMP.get(type(n.ops[0]), []):
                    add(pos(l)[1], pos(r)[0], ' %s ' % op, line, 'cmp ' + op)
            elif isinstance(n, ast.BoolOp):
                for x, y in zip(n.values, n.values[1:]):
                    a, b = pos(x)[1], pos(y)[0]
                    old = data[a:b].decode()
                    new = old.replace('and', 'or') if isinstance(n.op, ast.And) else old.replace('or', 'and')
                    add(a, b, new, line, 'bool')
            elif isinstance(n, ast.BinOp):
                for op in BIN.get(type(n.op), []):
                    a, b = pos(n.left)[1], pos(n.right)[0]
                    old = data[a:b].decode()
                    for o in '+-*/':
                        if o in old:
                            add(a, b, old.replace(o, op, 1), line, 'bin ' + op)
                            break
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                a, b = pos(n)
                add(a, b, src(n.operand), line, 'unary')
            elif isinstance(n, ast.Constant):
                a, b = pos(n)
                if n.value is True or n.value is False:
                    add(a, b, str(not n.value), line, 'const')
                elif isinstance(n.value, int):
                    add(a, b, str(n.value + 1), line, 'const')
                    if n.value > 0:
                        add(a, b, str(n.value - 1), line, 'const')
                elif isinstance(n.value, float):
                    add(a, b, repr(n.value * 1.1), line, 'const')
            elif isinstance(n, ast.Attribute) and n.attr in ATTR:
                a, b = pos(n)
                add(b - len(n.attr), b, ATTR[n.attr], line, 'attr')
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in NAME:
                a, b = pos(n.func)
                add(a, b, NAME[n.func.id], line, 'name')
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in NAME:
                a, b = pos(n.func)
                add(b - len(n.func.attr), b, NAME[n.func.attr], line, 'name')
            elif isinstance(n, (ast.Expr, ast.AugAssign)) and not isinstance(getattr(n, 'value', None), ast.Constant):
                a, b = pos(n)
                add(a, b, 'pass', line, 'delete')
            elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
                a, b = pos(n)
                add(a, b, 'pass', line, 'delete')
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                a, b = pos(n.test)
                add(a, b, '(not (%s))' % src(n.test), line, 'negate')
                if isinstance(n, ast.If):
                    add(a, b, 'True', line, 'always')
                    add(a, b, 'False', line, 'never')
            elif isinstance(n, ast.Continue):
                add(*pos(n), 'break', line, 'break')
            elif isinstance(n, ast.Break):
                add(*pos(n), 'continue', line, 'continue')
        for c in ast.iter_child_nodes(n):
            visit(c, skip)

    visit(tree, False)
    return data, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--n', type=int, default=300)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('--cov', required=True)
    ap.add_argument('--files', default=','.join(FILES))
    ap.add_argument('--verif', default=VERIF)
    args = ap.parse_args()
    cover = {}
    for f in glob.glob(os.path.join(args.cov, '*.json')):
        name = os.path.basename(f).split('.')[0].upper()
        with open(f) as fh:
            try:
                d = json.load(fh)
            except ValueError:
                continue
        for k, v in d.items():
            for l in v:
                cover.setdefault((k, l), set()).add(name)
    todo = []
    for path in args.files.split(','):
        text = open(os.path.join('/repo', path)).read()
        data, ms = mutants(path, text, {l for (p, l) in cover if p == path})
        for m in ms:
            new = data[:m[3]] + m[5].encode() + data[m[4]:]
            try:
                compile(new, path, 'exec')
            except SyntaxError:
                continue
            todo.append((m, new, data))
    random.Random(args.seed).shuffle(todo)
    done = set()
    if os.path.exists(args.out):
        for l in open(args.out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['what'], d['a'], d['new']))
    todo = todo[:args.n]
    print(len(todo), 'mutants')
    scratch = tempfile.mkdtemp(prefix='mut-')
    lock = threading.Lock()
    out = open(args.out, 'a')
    cost = {'C27': 90, 'C29': 80, 'C31': 85, 'C30': 60, 'C28': 50, 'C26': 40, 'C25': 39}

    def one(k):
        m, new, data = todo[k]
        path, line, what, a, b, rep = m
        if (path, line, what, a, rep) in done:
            return
        d = os.path.join(scratch, 'm%d' % k)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'extra', '__pycache__'))
        try:
            with open(os.path.join(d, path), 'wb') as f:
                f.write(new)
            env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
            res = {'file': path, 'line': line, 'what': what, 'a': a, 'b': b, 'new': rep,
                   'src': data.split(b'\n')[line - 1].decode().strip(), 'killed': None, 'caught': None}
            checks = sorted(cover[(path, line)], key=lambda c: (cost.get(c, 10), c))
            env.update(VERIF_REPO_DEV=d, VERIF_SHARDS_DEV='4', VERIF_SEED='1', VERIF_TIER='quick')
            res['checks'] = checks
            for c in checks:
                try:
                    r = subprocess.run(['python3-vt', '-m', 'pbt.driver', c], cwd=args.verif, env=env, timeout=600,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                except subprocess.TimeoutExpired:
                    res.setdefault('errors', []).append(c)
                    continue
                if r.returncode == 1:
                    res['caught'] = c
                    break
                if r.returncode:
                    res.setdefault('errors', []).append(c)
            if not res['caught']:        # would the tests find it?
                try:
                    r = subprocess.run([PYPY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-n', '4', 'tests'],
                                       cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
                    res['killed'] = r.returncode != 0
                except subprocess.TimeoutExpired:
                    res['killed'] = True
            with lock:
                out.write(json.dumps(res) + '\n')
                out.flush()
        finally:
            shutil.rmtree(d, ignore_errors=True)

    try:
        with concurrent.futures.ThreadPoolExecutor(args.jobs) as ex:
            list(ex.map(one, range(len(todo))))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    main()
