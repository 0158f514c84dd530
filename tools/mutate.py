#!/usr/bin/env python3
"""Mutation campaign: how many small changes to regreg do the checks notice?

mutate.py list [GLOB]                      count the mutants per file
mutate.py run OUT.jsonl --workers N --seconds S [--files GLOB] [--seed K] [--scale-cpu C]

Works on copies of /repo and of this directory under a scratch directory which it removes.  Nothing here
decides a property; it measures the checks.
"""
import argparse
import ast
import fnmatch
import glob
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REGREG_REPO', '/repo')

# which checks look at which file, the most likely first
MAP = [('atoms/__init__.py', 'C01 C05 C02 C06 C23 C19'),
       ('atoms/seminorms.py', 'C01 C02 C04 C05 C23 C19'),
       ('atoms/weighted_atoms.py', 'C01 C02 C04 C05 C23'),
       ('atoms/cones.py', 'C03 C05 C23 C04'),
       ('atoms/simplex.py', 'C03 C05 C23'),
       ('atoms/linear_constraints.py', 'C03 C05 C23'),
       ('atoms/slope.py', 'C01 C02 C04 C05 C23'),
       ('atoms/_isotonic_py.py', 'C24 C01'),
       ('atoms/group_lasso.py', 'C07 C03 C05 C23 C04'),
       ('atoms/sparse_group_lasso.py', 'C07 C04 C05 C23'),
       ('atoms/mixed_lasso.py', 'C07 C05 C23 C04'),
       ('atoms/block_norms.py', 'C08 C05 C23'),
       ('atoms/svd_norms.py', 'C08 C03 C05 C23'),
       ('atoms/sparse_group_block.py', 'C08 C05 C23'),
       ('affine/fused_lasso.py', 'C11 C09 C19'),
       ('affine/multiscale.py', 'C11 C09 C19'),
       ('affine/image2d.py', 'C11 C09'),
       ('affine/factored_matrix.py', 'C11 C09 C10'),
       ('affine/block_maps.py', 'C10 C09'),
       ('affine/__init__.py', 'C10 C09 C11 C19'),
       ('identity_quadratic.py', 'C16 C23'),
       ('smooth/glm.py', 'C12 C14 C15 C19 C17'),
       ('smooth/binary.py', 'C12 C14 C19'),
       ('smooth/mglm.py', 'C12 C14 C19'),
       ('smooth/losses.py', 'C12 C15 C19'),
       ('smooth/quadratic.py', 'C12 C15 C19'),
       ('smooth/cox.py', 'C13 C14 C19'),
       ('smooth/__init__.py', 'C15 C12 C06 C17'),
       ('problems/composite.py', 'C15 C01 C05 C06 C17 C18'),
       ('problems/conjugate.py', 'C06 C05'),
       ('problems/simple.py', 'C17 C18'),
       ('problems/separable.py', 'C18'),
       ('problems/container.py', 'C18'),
       ('problems/dual_problem.py', 'C18'),
       ('problems/admm.py', 'C18'),
       ('problems/newton.py', 'C18'),
       ('algorithms.py', 'C17 C18'),
       ('paths/__init__.py', 'C20 C21'),
       ('paths/basil.py', 'C20'),
       ('paths/lasso.py', 'C21 C20'),
       ('paths/group_lasso.py', 'C21 C20'),
       ('paths/sparse_group_lasso.py', 'C21 C20'),
       ('paths/sparse_group_block.py', 'C21 C20'),
       ('paths/cross_validate.py', 'C21'),
       ('sklearn/*.py', 'C22')]
SKIP_FUNCS = ('latexify', '_repr_latex_', 'terms_latex')
CMP = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'),
       ast.Eq: ('==', '!='), ast.NotEq: ('!=', '=='), ast.Is: ('is', 'is not'), ast.IsNot: ('is not', 'is')}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*')}


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))

    def at(line, col):
        # ast columns are in UTF-8 bytes
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset)

    out = []

    def put(n, a, b, new, what):
        if src[a:b] != new:
            s = src[:a] + new + src[b:]
            try:
                ast.parse(s)
            except SyntaxError:
                return
            out.append((n.lineno, what, s))

    def between(n, left, right, old, new):
        a, b = span(left)[1], span(right)[0]
        gap = src[a:b]
        if gap.count(old) == 1:
            put(n, a, b, gap.replace(old, new), '%s -> %s' % (old, new))

    def visit(n, debug=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in SKIP_FUNCS:
            return
        if isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id in ('debug', 'verbose', '__name__')
                                         for x in ast.walk(n.test)):
            return
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id.endswith(('template', '_doc', 'objective_vars'))
                                             for t in n.targets):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            o, w = CMP[type(n.ops[0])]
            between(n, n.left, n.comparators[0], o, w)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            o, w = BIN[type(n.op)]
            between(n, n.left, n.right, o, w)
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            o, w = BIN[type(n.op)]
            between(n, n.target, n.value, o + '=', w + '=')
        if isinstance(n, ast.UnaryOp):
            a, b = span(n)
            c, d = span(n.operand)
            if isinstance(n.op, (ast.USub, ast.Not)):
                put(n, a, b, '(' + src[c:d] + ')', 'drop ' + ('-' if isinstance(n.op, ast.USub) else 'not'))
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)):
            a, b = span(n)
            v = n.value
            if v is True or v is False:
                put(n, a, b, str(not v), '%s -> %s' % (v, not v))
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                new = {0: '1', 1: '2', 2: '1'}.get(v, repr(v * 2))
                put(n, a, b, new, '%s -> %s' % (v, new))
        if isinstance(n, ast.Call):
            a, b = span(n)
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'reshape', 'T', 'clip', 'astype'):
                c, d = span(f.value)
                put(n, a, b, src[c:d], 'drop .%s()' % f.attr)
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if name in ('copy', 'fabs', 'abs', 'asarray', 'array', 'sqrt') and len(n.args) >= 1 and not (
                    isinstance(f, ast.Attribute) and f.attr == 'copy' and not getattr(f.value, 'id', '') in ('copy',)):
                c, d = span(n.args[0])
                put(n, a, b, '(' + src[c:d] + ')', 'drop %s()' % name)
            swaps = {'minimum': 'maximum', 'maximum': 'minimum', 'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any',
                     'linear_map': 'affine_map', 'affine_map': 'linear_map', 'zeros': 'ones', 'ones': 'zeros'}
            if name in swaps:
                c, d = span(f)
                put(n, c, d, src[c:d][:-len(name)] + swaps[name], '%s -> %s' % (name, swaps[name]))
            for k in n.keywords:
                if k.arg:
                    c, d = span(k.value)
                    if not isinstance(k.value, ast.Constant):
                        # drop the keyword with the comma before or after it
                        e = src.rfind(k.arg, a, c)
                        x, y = e, d
                        while x > a and src[x - 1] in ' \n\t':
                            x -= 1
                        if src[x - 1] == ',':
                            put(n, x - 1, d, '', 'drop %s=' % k.arg)
                        else:
                            while y < b and src[y] in ' \n\t':
                                y += 1
                            if src[y] == ',':
                                put(n, e, y + 1, '', 'drop %s=' % k.arg)
                            else:
                                put(n, e, d, '', 'drop %s=' % k.arg)
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            a, b = span(n)
            put(n, a, b, 'pass', 'drop statement')
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            a, b = span(n.test)
            if not isinstance(n, ast.While):
                put(n, a, b, '(not (' + src[a:b] + '))', 'negate condition')
        if isinstance(n, ast.BoolOp):
            a, b = span(n)
            for v in n.values:
                c, d = span(v)
                put(n, a, b, '(' + src[c:d] + ')', 'keep one operand of and/or')
        for c in ast.iter_child_nodes(n):
            visit(c)

    visit(tree)
    return out


def checks_for(rel):
    for pat, checks in MAP:
        if fnmatch.fnmatch(rel, pat):
            return checks.split()
    return []


def cpu_costs():
    out = {}
    for f in glob.glob(os.path.join(HERE, 'evidence', 'C*.json')):
        d = json.load(open(f))
        if not d['violations'] and d['tier'] == 'quick':
            out[d['property']] = sum(q.get('ms', 0) for q in d['coverage']['sub_checks'].values()) / 1000.
    return out


def worker(k, base, jobs, out, deadline, cpu, costs, full):
    d = os.path.join(base, str(k))
    repo, verif = os.path.join(d, 'repo'), os.path.join(d, 'verif')
    shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns('.git'))
    os.makedirs(verif)
    for x in ('run.py', 'pbt', 'known_findings.txt'):
        s = os.path.join(HERE, x)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(verif, x))
    env = dict(os.environ, REGREG_REPO=repo, PBT_SHRINK_SECONDS='0', REGREG_PBT_BUILD=os.path.join(base, 'build'))
    while time.time() < deadline:
        try:
            job = jobs.get(timeout=1)
        except Exception:
            break
        rel, line, what, new = job
        path = os.path.join(repo, 'regreg', rel)
        old = open(path).read()
        with open(path, 'w') as f:
            f.write(new)
        by, t0, odd = None, time.time(), []
        for c in checks_for(rel):
            scale = 1. if full else min(1., cpu / max(1., costs.get(c, 200.)))
            try:
                p = subprocess.run([sys.executable, '-W', 'ignore', 'run.py', c, '--jobs', '1', '--scale', '%.4f' % scale],
                                   cwd=verif, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   timeout=max(240, 4 * cpu) if not full else 2400)
                if p.returncode == 1:
                    by = c
                    break
                if p.returncode:
                    odd.append(c)
            except subprocess.TimeoutExpired:
                odd.append(c + ' timeout')
        with open(path, 'w') as f:
            f.write(old)
        src = new.splitlines()
        with open(out, 'a') as f:
            f.write(json.dumps({'file': rel, 'line': line, 'what': what, 'by': by, 'odd': odd, 'text': src[line - 1].strip() if line <= len(src) else '',
                                's': round(time.time() - t0, 1)}) + '\n')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('out', nargs='?')
    ap.add_argument('--workers', type=int, default=6)
    ap.add_argument('--seconds', type=float, default=3600)
    ap.add_argument('--files', default='*')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--scale-cpu', type=float, default=40.)
    ap.add_argument('--full', action='store_true')
    ap.add_argument('--again', help='only the mutants this file of results lists as not noticed')
    a = ap.parse_args()
    todo = []
    for p in sorted(glob.glob(os.path.join(REPO, 'regreg', '**', '*.py'), recursive=True)):
        rel = os.path.relpath(p, os.path.join(REPO, 'regreg'))
        if 'tests' in rel.split(os.sep) or not checks_for(rel) or not fnmatch.fnmatch(rel, a.files):
            continue
        src = open(p).read()
        m = [(rel,) + t for t in mutants(src)]
        if a.cmd == 'list':
            print('%5d %s %s' % (len(m), rel, ' '.join(checks_for(rel))))
        todo.extend(m)
    if a.cmd == 'list':
        print(len(todo))
        return
    random.Random(a.seed).shuffle(todo)
    if a.again:
        keys = set((d['file'], d['line'], d['what'], d['text']) for d in map(json.loads, open(a.again)) if d['by'] is None)
        todo = [t for t in todo if (t[0], t[1], t[2], t[3].splitlines()[t[1] - 1].strip()) in keys]
    done = set()
    if os.path.exists(a.out):
        done = set((d['file'], d['line'], d['what'], d['text']) for d in map(json.loads, open(a.out)))
    todo = [t for t in todo if (t[0], t[1], t[2], t[3].splitlines()[t[1] - 1].strip()) not in done]
    print(len(todo), 'mutants')
    import tempfile
    base = tempfile.mkdtemp(prefix='regreg-mut-')
    jobs = multiprocessing.Queue()
    for t in todo[:20000]:
        jobs.put(t)
    costs = cpu_costs()
    ps = [multiprocessing.Process(target=worker, args=(k, base, jobs, os.path.abspath(a.out), time.time() + a.seconds,
                                                       a.scale_cpu, costs, a.full)) for k in range(a.workers)]
    try:
        for p in ps:
            p.start()
        for p in ps:
            p.join()
    finally:
        for p in ps:
            p.terminate()
        shutil.rmtree(base, ignore_errors=True)
    jobs.cancel_join_thread()


if __name__ == '__main__':
    main()
