"""
Registration, execution, evidence and replay for the property checks.

A *sub-check* is a pair (gen, check):

* gen(draw) builds a *case*: plain data (numbers, strings, lists, dicts, numpy
  arrays) describing one input / configuration / history;
* check(case) runs the code under test on the case against an oracle.  It
  raises `Violation` when the property fails, returns a label (a non-empty
  string) when the case was non-trivial by the stated rule and a falsy value
  when it was not.  Any exception that comes out of a frame of regreg is a
  violation too; any other exception is a harness error (exit 2, no VIOLATION).

Because the case is plain data, the replay file of a violation is just the
(shrunk) case, and `run.py <ID> --replay FILE` needs no generator.
"""
import collections
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

import numpy as np

from . import boot

REGISTRY = collections.OrderedDict()     # property id -> list of Sub
PROPS = {}                               # property id -> Prop


class Violation(Exception):
    pass


class Reject(Exception):
    """The case is outside the domain of the property (counted, not checked)."""


class CaseTimeout(Exception):
    pass


class _Stop(KeyboardInterrupt):
    pass


Sub = collections.namedtuple('Sub', 'prop name gen check quick thorough cost doc')
Prop = collections.namedtuple('Prop', 'pid rule assumptions level')


def prop(pid, rule, assumptions=(), level='exploration'):
    PROPS[pid] = Prop(pid, rule, list(assumptions), level)
    REGISTRY.setdefault(pid, [])


def sub(pid, name, gen, quick=200, thorough=4000, cost=1.):
    """cost: rough CPU milliseconds of one case (used for scheduling only)."""
    def deco(f):
        REGISTRY.setdefault(pid, []).append(
            Sub(pid, name, gen, f, quick, thorough, cost, (f.__doc__ or '').strip()))
        return f
    return deco


# --------------------------------------------------------------- serialising

def encode(o):
    if isinstance(o, np.ndarray):
        return {'__nd__': [str(o.dtype), list(o.shape), encode(o.ravel().tolist())]}
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, tuple):
        return {'__tuple__': [encode(v) for v in o]}
    if isinstance(o, slice):
        return {'__slice__': [o.start, o.stop, o.step]}
    if isinstance(o, dict):
        return {'__dict__': [[encode(k), encode(v)] for k, v in o.items()]}
    if isinstance(o, list):
        return [encode(v) for v in o]
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    raise boot.HarnessError('cannot serialise %r' % (o,))


def decode(o):
    if isinstance(o, dict):
        if '__nd__' in o:
            dt, shape, vals = o['__nd__']
            return np.array(decode(vals), dtype=dt).reshape(shape)
        if '__tuple__' in o:
            return tuple(decode(v) for v in o['__tuple__'])
        if '__slice__' in o:
            return slice(*o['__slice__'])
        return dict((decode(k), decode(v)) for k, v in o['__dict__'])
    if isinstance(o, list):
        return [decode(v) for v in o]
    return o


def short(o, n=600):
    def s(o):
        if isinstance(o, np.ndarray):
            return np.array2string(o, precision=6, threshold=60, separator=', ').replace('\n', '')
        if isinstance(o, dict):
            return '{' + ', '.join('%s: %s' % (k, s(v)) for k, v in o.items()) + '}'
        if isinstance(o, (list, tuple)):
            return '[' + ', '.join(s(v) for v in o) + ']'
        return repr(o)
    r = s(o)
    return r if len(r) <= n else r[:n] + '...'


# ------------------------------------------------------------------ one case

CASE_CPU_SECONDS = 60.


def _in_regreg(tb):
    root = os.path.join(boot.REPO, 'regreg') + os.sep
    last = None
    for fr, _ in traceback.walk_tb(tb):
        fn = fr.f_code.co_filename
        if fn.startswith(root) or fn.startswith('regreg/'):
            last = fr
    return last is not None


def run_case(s, case):
    """Returns (status, label, message); status in ok, trivial, reject, violation."""
    def onalarm(signum, frame):
        raise CaseTimeout('no result after %d CPU seconds' % CASE_CPU_SECONDS)
    old = signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
    try:
        np.random.seed(12345)
        label = s.check(case)
        return ('ok' if label else 'trivial'), (label or ''), ''
    except Violation as e:
        return 'violation', '', str(e)
    except Reject as e:
        return 'reject', str(e), ''
    except boot.HarnessError:
        raise
    except CaseTimeout as e:
        return 'violation', '', str(e)
    except Exception as e:
        if _in_regreg(e.__traceback__):
            tb = traceback.format_exc(limit=-3)
            return 'violation', '', 'unexpected %s: %s\n%s' % (type(e).__name__, e, tb)
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


# ----------------------------------------------------------- one task (shard)

SHRINK_SECONDS = float(os.environ.get('PBT_SHRINK_SECONDS', '25'))


def run_task(s, shard, nshard, n, seed, journal):
    """Generated-input search for one sub-check; runs in a forked child."""
    from hypothesis import given, settings, HealthCheck, Phase, strategies as st
    from hypothesis import seed as hseed
    stats = collections.Counter()
    labels = collections.Counter()
    distinct = set()
    samples = []
    best = {}
    t0 = time.time()
    strat = st.composite(lambda draw: s.gen(draw))()
    h = hashlib.sha256(('%s/%s/%d/%d' % (s.prop, s.name, seed, shard)).encode()).digest()

    @hseed(int.from_bytes(h[:7], 'big'))
    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
              report_multiple_bugs=False, print_blob=False,
              phases=[Phase.generate, Phase.shrink],
              suppress_health_check=list(HealthCheck))
    @given(strat)
    def body(case):
        if best and time.time() - best['first'] > SHRINK_SECONDS:
            raise _Stop()
        if not best:
            stats['evaluations'] += 1
        enc = json.dumps(encode(case))
        if journal is not None:
            journal.seek(0)
            journal.truncate()
            journal.write(enc)
            journal.flush()
        status, label, msg = run_case(s, case)
        if not best:
            stats[status] += 1
            if status == 'ok':
                labels[label] += 1
                distinct.add(hashlib.sha1(enc.encode()).digest()[:8])
                if len(samples) < 3 or (len(samples) < 12 and labels[label] == 1):
                    samples.append((s.name, label, short(case)))
        if status == 'violation':
            if not best:
                best['first'] = time.time()
            if 'size' not in best or len(enc) <= best['size']:
                best.update(size=len(enc), case=enc, msg=msg)
            raise Violation(msg)

    err = None
    try:
        body()
    except _Stop:
        pass
    except Violation:
        pass
    except Exception as e:
        if not best:
            err = traceback.format_exc()
    return dict(name=s.name, shard=shard, stats=dict(stats), labels=dict(labels),
                distinct=list(distinct), samples=samples, best=best, err=err,
                wall=time.time() - t0)


# ------------------------------------------------------------------ scheduler

def load(pid):
    importlib.import_module('pbt.' + pid.lower())
    return REGISTRY[pid]


def make_tasks(subs, tier, scale=1.):
    tasks = []
    for s in subs:
        n = int(np.ceil((s.quick if tier == 'quick' else s.thorough) * scale))
        per = max(25, int(4000. / s.cost)) if tier == 'quick' else max(100, int(40000. / s.cost))
        k = max(1, min(8 if tier == 'quick' else 16, int(np.ceil(n / float(per)))))
        for i in range(k):
            m = n // k + (1 if i < n % k else 0)
            if m:
                tasks.append((s, i, k, m, m * (s.cost + 2.)))
    tasks.sort(key=lambda t: -t[-1])
    return tasks


def run_parallel(tasks, seed, workers, budget):
    """Fork one child per task.  Stops early on the first violation."""
    tmp = tempfile.mkdtemp(prefix='regreg-pbt-')
    results, running, queue = [], {}, list(enumerate(tasks))
    t0 = time.time()
    stopped = ''
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        while queue or running:
            if stopped and not running:
                break
            while queue and len(running) < workers and not stopped:
                k, (s, i, n, m, _) = queue.pop(0)
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.setsid()
                        with open(os.path.join(tmp, '%d.case' % k), 'w') as j:
                            r = run_task(s, i, n, m, seed, j)
                        with open(os.path.join(tmp, '%d.res' % k), 'wb') as f:
                            pickle.dump(r, f)
                    except BaseException:
                        code = 3
                        with open(os.path.join(tmp, '%d.err' % k), 'w') as f:
                            f.write(traceback.format_exc())
                    os._exit(code)
                running[pid] = k
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.01)
                if time.time() - t0 > budget and not stopped:
                    stopped = 'budget'
                    for p in running:
                        os.kill(p, signal.SIGKILL)
                continue
            if pid not in running:
                continue
            k = running.pop(pid)
            s = tasks[k][0]
            res = os.path.join(tmp, '%d.res' % k)
            if os.path.exists(res):
                with open(res, 'rb') as f:
                    r = pickle.load(f)
                results.append(r)
                if (r['best'] or r['err']) and not stopped:
                    stopped = 'failure'
                    for p in running:
                        os.kill(p, signal.SIGKILL)
            elif stopped:
                continue
            elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (
                    signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT, signal.SIGILL):
                with open(os.path.join(tmp, '%d.case' % k)) as f:
                    enc = f.read()
                results.append(dict(name=s.name, shard=0, stats={}, labels={}, distinct=[], samples=[],
                                    err=None, wall=0, best=dict(
                                        size=len(enc), case=enc, first=0,
                                        msg='process died with signal %d' % os.WTERMSIG(status))))
                stopped = 'failure'
                for p in running:
                    os.kill(p, signal.SIGKILL)
            else:
                err = 'worker for %s ended with status %r' % (s.name, status)
                ef = os.path.join(tmp, '%d.err' % k)
                if os.path.exists(ef):
                    err = open(ef).read()
                results.append(dict(name=s.name, shard=0, stats={}, labels={}, distinct=[], samples=[],
                                    err=err, wall=0, best={}))
                stopped = 'failure'
                for p in running:
                    os.kill(p, signal.SIGKILL)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return results, stopped


# -------------------------------------------------------------------- driver

KNOWN = os.path.join(boot.VERIF, 'known_findings.txt')


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status', 'open') == 'open':
                    out.append(d)
    return out


def write_replay(pid, name, enc, msg):
    d = os.path.join(boot.VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, '%s-%s-%s.json' % (
        pid, ''.join(c if c.isalnum() else '_' for c in name),
        hashlib.sha1(enc.encode()).hexdigest()[:10]))
    with open(f, 'w') as h:
        json.dump({'property': pid, 'sub': name, 'message': msg, 'case': json.loads(enc or 'null')}, h, indent=1)
        h.write('\n')
    return f


def replay(pid, path):
    d = json.load(open(path))
    if d['property'] != pid:
        print('replay file is for property %s' % d['property'])
        return 2
    subs = [s for s in load(pid) if s.name == d['sub']]
    if not subs:
        print('no sub-check named %r' % d['sub'])
        return 2
    case = decode(d['case'])
    print('case: %s' % short(case, 4000))
    status, label, msg = run_case(subs[0], case)
    if status == 'violation':
        print(msg)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('holds on this case (%s %s)' % (status, label))
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--sub', help='only the sub-checks whose name contains this (no evidence written)')
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-l', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    boot.boot()
    pid = a.pid
    if a.replay:
        return replay(pid, a.replay)
    subs = load(pid)
    P = PROPS[pid]
    partial = bool(a.sub)
    if a.sub:
        subs = [s for s in subs if a.sub in s.name]
    byname = dict((s.name, s) for s in subs)

    # recorded findings: replay each; report the ones that still fail
    known_lines = []
    for k in known_findings(pid):
        if k['sub'] not in byname:
            continue
        status, _, msg = run_case(byname[k['sub']], decode(k['case']))
        if status == 'violation':
            line = 'KNOWN-FINDING: property=%s %s' % (pid, k['what'])
            known_lines.append(line)
            print(line)

    budget = 780. if a.tier == 'quick' else 6 * 3600.
    tasks = make_tasks(subs, a.tier, a.scale)
    results, stopped = run_parallel(tasks, a.seed, a.jobs, budget)
    errs = [r for r in results if r['err']]
    bads = [r for r in results if r['best']]
    stats, labels, per = collections.Counter(), collections.Counter(), {}
    distinct, samples = set(), []
    for r in results:
        stats.update(r['stats'])
        for l, c in r['labels'].items():
            labels['%s: %s' % (r['name'], l)] += c
        distinct.update((r['name'], d) for d in r['distinct'])
        q = per.setdefault(r['name'], collections.Counter())
        q.update(r['stats'])
        q['ms'] += int(1000 * r['wall'])
        if len(samples) < 60:
            samples.extend(r['samples'][:3])
    wall = time.time() - t0
    violations = []
    for r in bads:
        f = write_replay(pid, r['name'], r['best']['case'], r['best']['msg'])
        violations.append({'property': pid, 'sub': r['name'], 'replay': f, 'message': r['best']['msg'][:2000]})
    if a.v:
        for n, q in sorted(per.items()):
            e = max(1, q['evaluations'])
            print('%-40s eval %6d  nontrivial %5.1f%%  reject %5.1f%%  %7.2f ms/case' % (
                n, q['evaluations'], 100. * q['ok'] / e, 100. * q['reject'] / e, q['ms'] / float(e)))
        for l, c in sorted(labels.items()) if a.l else ():
            print('    %-70s %d' % (l, c))
    if not partial:
        ev = {'property': pid, 'tier': a.tier, 'seed': a.seed, 'level': P.level,
              'coverage': {'evaluations': int(stats['evaluations']),
                           'distinct_nontrivial': len(distinct),
                           'rule': P.rule,
                           'samples': ['%s [%s] %s' % t for t in samples],
                           'sub_checks': dict((n, {k: int(v) for k, v in q.items()}) for n, q in per.items()),
                           'labels': dict(labels),
                           'known_findings_seen': known_lines},
              'assumptions': P.assumptions,
              'wall_s': round(wall, 2),
              'violations': len(violations),
              'violation_details': violations}
        os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(boot.VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    print('%s tier=%s seed=%d: %d cases, %d non-trivial (%d distinct), %d rejected, %.1f s' % (
        pid, a.tier, a.seed, stats['evaluations'], stats['ok'], len(distinct), stats['reject'], wall))
    if violations:
        for v in violations[:1]:
            print('%s / %s: %s' % (pid, v['sub'], v['message']))
            print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
        return 1
    if errs:
        for r in errs[:3]:
            print('HARNESS ERROR in %s:\n%s' % (r['name'], r['err']), file=sys.stderr)
        return 2
    if stopped == 'budget':
        print('time budget reached before all cases were run', file=sys.stderr)
        if tasks and not results:
            return 2
    return 0
