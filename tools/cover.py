#!/usr/bin/env python3
"""Which lines of regreg do the checks run?  cover.py CHECK... [--scale S]

Runs the checks (no evidence is written) and prints, per file, the executable lines of function bodies that none
of the generated cases reached.  Nothing here decides a property.
"""
import argparse
import ast
import glob
import importlib
import os
import pickle
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pbt import boot                                        # noqa: E402


def lines(path):
    """first lines of the statements inside functions"""
    out = set()
    for f in ast.walk(ast.parse(open(path).read())):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for st in ast.walk(f):
                if isinstance(st, ast.stmt) and st is not f and not (
                        isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                    out.add(st.lineno)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('checks', nargs='+')
    ap.add_argument('--scale', type=float, default=0.3)
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('--out')
    ap.add_argument('--load', nargs='*', default=[])
    a = ap.parse_args()
    boot.boot()
    from pbt import core
    root = os.path.join(boot.REPO, 'regreg') + os.sep
    mon = sys.monitoring
    hit = {}

    def line(code, n):
        if code.co_filename.startswith(root):
            hit.setdefault(code.co_filename[len(root):], set()).add(n)
        return mon.DISABLE

    tmp = tempfile.mkdtemp(prefix='regreg-cover-')
    run = core.run_task

    def task(*args):
        mon.use_tool_id(3, 'cover')
        mon.register_callback(3, mon.events.LINE, line)
        mon.set_events(3, mon.events.LINE)
        r = run(*args)
        pickle.dump(hit, open(os.path.join(tmp, '%d' % os.getpid()), 'wb'))
        return r
    core.run_task = task
    total = {}
    for f in a.load:
        for k, v in pickle.load(open(f, 'rb')).items():
            total.setdefault(k, set()).update(v)
    for pid in a.checks:
        if pid == '-':
            continue
        subs = core.load(pid)
        core.run_parallel(core.make_tasks(subs, 'quick', a.scale), 1, a.jobs, 3000.)
        for f in glob.glob(os.path.join(tmp, '*')):
            for k, v in pickle.load(open(f, 'rb')).items():
                total.setdefault(k, set()).update(v)
            os.remove(f)
        print('#', pid, sum(len(v) for v in total.values()), file=sys.stderr, flush=True)
        if a.out:
            pickle.dump(total, open(a.out, 'wb'))
    os.rmdir(tmp)
    for f in sorted(glob.glob(root + '**/*.py', recursive=True)):
        rel = f[len(root):]
        if 'tests/' in rel:
            continue
        want = lines(f)
        miss = sorted(want - total.get(rel, set()))
        if want:
            print('%s: %d of %d lines not reached' % (rel, len(miss), len(want)))
            src = open(f).read().split('\n')
            for n in miss:
                print('   %4d %s' % (n, src[n - 1].strip()[:110]))


if __name__ == '__main__':
    main()
