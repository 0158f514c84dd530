"""
A monitor of every call made from the checks into regreg: the arrays a call is
given, those given to earlier calls (constructors included) and those returned
by earlier calls must be the same, bit for bit, when it returns.
"""
import os
import sys
import traceback
import numpy as np
from scipy import sparse

from . import boot

HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep
ROOT = os.path.join(boot.REPO, 'regreg') + os.sep
# in place by name: the caller asks for it
IN_PLACE = {'set_weight', 'zeroify', 'noneify'}
LIMIT = 300


def arrays(o, out, depth=0):
    """the arrays reachable from an argument or a result"""
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            for v in o.ravel():
                arrays(v, out, depth + 1)
        else:
            out.append(o)
    elif isinstance(o, (list, tuple)) and depth < 4:
        for v in o:
            arrays(v, out, depth + 1)
    elif isinstance(o, dict) and depth < 4:
        for v in o.values():
            arrays(v, out, depth + 1)
    elif sparse.issparse(o):
        for k in ('data', 'indices', 'indptr', 'row', 'col'):
            v = getattr(o, k, None)
            if isinstance(v, np.ndarray) and v.dtype != object:
                out.append(v)
    elif type(o).__name__ == 'identity_quadratic':
        for k in ('center', 'linear_term'):
            v = getattr(o, k, None)
            if isinstance(v, np.ndarray):
                out.append(v)
    return out


def scalars(o):
    """the state of an argument which is not an array"""
    if type(o).__name__ == 'identity_quadratic':
        # nothing and zero are the same term
        return tuple('array' if isinstance(v, np.ndarray) else v or 0
                     for v in (o.coef, o.center, o.linear_term, o.constant_term))
    if isinstance(o, (list, tuple)):
        return tuple(v if isinstance(v, (int, float, str, bool, type(None))) else id(v) for v in o)
    if isinstance(o, dict):
        return tuple((repr(k), v if isinstance(v, (int, float, str, bool, type(None))) else id(v))
                     for k, v in o.items())
    return None


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


class Monitor(object):
    """use as a context; `bad` is a message, or None"""

    def __init__(self, results=True):
        self.seen = {}          # id -> (array, origin)
        self.cur = None
        self.bad = None
        self.calls = self.watched = 0
        self.results = results

    def __enter__(self):
        sys.setprofile(self.profile)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)

    def add(self, arrs, origin):
        for a in arrs:
            if a.size <= 20000 and id(a) not in self.seen:
                if len(self.seen) >= LIMIT:
                    self.seen.pop(next(iter(self.seen)))
                self.seen[id(a)] = (a, origin)

    def forget(self, a):
        self.seen.pop(id(a), None)

    def profile(self, frame, event, arg):
        if event == 'call':
            if self.cur is None and self.bad is None:
                co = frame.f_code
                if co.co_filename.startswith(ROOT):
                    back = frame.f_back
                    if back is not None and back.f_code.co_filename.startswith(HERE):
                        self.guard(self.enter, frame, co)
        elif event == 'return' and frame is self.cur:
            self.guard(self.leave, frame, arg)

    def guard(self, f, *args):
        try:
            f(*args)
        except Exception:
            raise boot.HarnessError('monitor: ' + traceback.format_exc())

    def enter(self, frame, co):
        self.cur = frame
        loc = frame.f_locals
        n = co.co_argcount + co.co_kwonlyargcount + bool(co.co_flags & 4) + bool(co.co_flags & 8)
        self.name = '%s.%s' % (os.path.basename(co.co_filename)[:-3], getattr(co, 'co_qualname', co.co_name))
        self.inplace = co.co_name in IN_PLACE or loc.get('inplace') is True
        self.objs = []
        for k in co.co_varnames[:n]:
            o = loc.get(k)
            if k == 'self' and (type(o).__name__ != 'identity_quadratic' or co.co_name == '__init__'):
                continue
            self.add(arrays(o, []), 'argument %s of %s' % (k, self.name))
            s = scalars(o)
            if s is not None:
                self.objs.append((k, o, s))
        self.copies = [(a, w, a.copy()) for a, w in self.seen.values()]
        self.calls += 1

    def leave(self, frame, arg):
        self.cur = None
        if self.inplace:
            return
        for a, w, c in self.copies:
            self.watched += 1
            if not same(a, c):
                self.bad = '%s changed the %s\nfrom %s\nto   %s' % (self.name, w, c, a)
                return
        for k, o, s in self.objs:
            if scalars(o) != s:
                self.bad = '%s changed its argument %s\nfrom %s\nto   %s' % (self.name, k, s, scalars(o))
                return
        if self.results:
            self.add(arrays(arg, []), 'result of an earlier %s' % self.name)


def globals_of_regreg():
    """mutable containers that all objects of the library share: module and class
    attributes and default arguments"""
    out, done = [], set()

    def take(label, o):
        if isinstance(o, (dict, list, np.ndarray)) and id(o) not in done:
            done.add(id(o))
            out.append((label, o))

    def function(label, f):
        for v in list(getattr(f, '__defaults__', None) or ()) + list((getattr(f, '__kwdefaults__', None) or {}).values()):
            take('default argument of %s' % label, v)

    for name, mod in sorted(sys.modules.items()):
        if mod is None or not name.startswith('regreg') or '.tests' in name:
            continue
        for k, v in sorted(vars(mod).items()):
            if k.startswith('__'):
                continue
            take('%s.%s' % (name, k), v)
            function('%s.%s' % (name, k), v)
            if isinstance(v, type) and v.__module__.startswith('regreg') and id(v) not in done:
                done.add(id(v))
                for j, w in sorted(vars(v).items()):
                    if not j.startswith('__') or j == '__init__':
                        take('%s.%s' % (k, j), w)
                        function('%s.%s' % (k, j), getattr(w, '__func__', w))
    return out


_globals = []


def state():
    if not _globals:
        _globals.extend(globals_of_regreg())
    return [(w, o, o.copy()) for w, o in _globals]


def changed(before):
    """message when a shared container is not what it was; it is put back"""
    bad = None
    for w, o, c in before:
        if isinstance(o, np.ndarray):
            if not same(o, c):
                bad = '%s changed from %s to %s' % (w, c, o)
                o[...] = c
        elif scalars(o) != scalars(c):
            bad = '%s changed from %s to %s' % (w, c, o)
            o.clear()
            o.update(c) if isinstance(o, dict) else o.extend(c)
    return bad
