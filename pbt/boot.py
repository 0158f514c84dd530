"""
Bootstrap for every check process.

* re-executes under /opt/venv/bin/python with a fixed environment (hash seed,
  single threaded BLAS, ...);
* makes `hypothesis` importable (it lives in the tooling venv; only the names
  in _TOOL_NAMES are ever taken from there, never numpy/scipy);
* compiles the four Cython extensions of regreg from the *current* sources in
  /repo into a cache outside /repo, and makes `import regreg` use the Python
  files of /repo with those freshly built extensions;
* never writes to /repo.
"""
import fcntl
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REGREG_REPO', '/repo')
PY = '/opt/venv/bin/python'
TOOL_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_TOOL_NAMES = ('hypothesis', '_hypothesis_globals', '_hypothesis_ftz_detector',
               '_hypothesis_pytestplugin', 'sortedcontainers', 'attr', 'attrs')
BUILD = os.environ.get('REGREG_PBT_BUILD', os.path.join(VERIF, '.build'))

ENV = {'PYTHONHASHSEED': '0',
       'OPENBLAS_NUM_THREADS': '1',
       'OMP_NUM_THREADS': '1',
       'MKL_NUM_THREADS': '1',
       'OPENBLAS_CORETYPE': 'Haswell',
       'MPLBACKEND': 'agg',
       'JOBLIB_MULTIPROCESSING': '0',
       'PYTHONDONTWRITEBYTECODE': '1',
       'PYTHONWARNINGS': 'ignore',
       'HYPOTHESIS_STORAGE_DIRECTORY': '/tmp/hypothesis-none',
       'HYPOTHESIS_NO_PLUGINS': '1'}

# module name -> (pyx relative to regreg/, extra C sources)
EXTS = {'regreg.atoms.projl1_cython': ('atoms/projl1_cython.pyx', []),
        'regreg.atoms.mixed_lasso_cython': ('atoms/mixed_lasso_cython.pyx', []),
        'regreg.atoms.piecewise_linear': ('atoms/piecewise_linear.pyx', []),
        'regreg.smooth.cox_utils': ('smooth/cox_utils.pyx', ['smooth/cox_fns.c'])}


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test."""


def reexec():
    """Make sure we run in the right interpreter with the right environment."""
    need = any(os.environ.get(k) != v for k, v in ENV.items())
    if os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
        need = True
    if need and os.environ.get('REGREG_PBT_REEXEC') != '1':
        env = dict(os.environ)
        env.update(ENV)
        env['REGREG_PBT_REEXEC'] = '1'
        env.pop('PYTHONPATH', None)
        os.execve(PY, [PY] + sys.argv, env)


class _ToolFinder(importlib.abc.MetaPathFinder):

    def find_spec(self, name, path=None, target=None):
        if path is None and name in _TOOL_NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [TOOL_SITE])
        return None


class _ExtFinder(importlib.abc.MetaPathFinder):

    def __init__(self, files):
        self.files = files

    def find_spec(self, name, path=None, target=None):
        if name in self.files:
            loader = importlib.machinery.ExtensionFileLoader(name, self.files[name])
            return importlib.util.spec_from_file_location(name, self.files[name],
                                                          loader=loader)
        return None


def _ext_inputs():
    """Every file that can influence the compiled code."""
    generated = {os.path.splitext(p[0])[0] + '.c' for p in EXTS.values()}
    out = []
    for sub in ('atoms', 'smooth'):
        d = os.path.join(REPO, 'regreg', sub)
        for f in sorted(os.listdir(d)):
            rel = sub + '/' + f
            if f.endswith(('.pyx', '.pxd', '.pxi', '.h', '.c')) and rel not in generated:
                out.append(rel)
    return out


def build_extensions():
    """Compile the extensions from the current sources; return {module: file}."""
    inputs = _ext_inputs()
    h = hashlib.sha256()
    for rel in inputs:
        with open(os.path.join(REPO, 'regreg', rel), 'rb') as f:
            h.update(rel.encode() + b'\0' + f.read() + b'\0')
    h.update(open(os.path.abspath(__file__), 'rb').read())
    key = h.hexdigest()[:24]
    dest = os.path.join(BUILD, 'ext-' + key)
    os.makedirs(BUILD, exist_ok=True)
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    files = {m: os.path.join(dest, m.split('.')[-1] + suffix) for m in EXTS}
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.isdir(dest) and all(os.path.exists(f) for f in files.values()):
            return files
        # keep the cache small: at most three other builds
        others = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)
                         if d.startswith('ext-')), key=os.path.getmtime)
        for d in others[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        work = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
        try:
            for rel in inputs:
                os.makedirs(os.path.join(work, 'regreg', os.path.dirname(rel)), exist_ok=True)
                shutil.copy(os.path.join(REPO, 'regreg', rel), os.path.join(work, 'regreg', rel))
            for sub in ('', 'atoms', 'smooth'):
                open(os.path.join(work, 'regreg', sub, '__init__.py'), 'w').close()
            out = os.path.join(work, 'out')
            os.makedirs(out)
            import numpy
            inc = ['-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include()]
            procs = []
            for mod, (pyx, extra) in EXTS.items():
                src = os.path.join(work, 'regreg', pyx)
                cfile = os.path.splitext(src)[0] + '.c'
                csrc = [cfile] + [os.path.join(work, 'regreg', e) for e in extra]
                so = os.path.join(out, mod.split('.')[-1] + suffix)
                script = ('cd "{w}" && {py} -m cython -2 "{src}" -o "{c}" && '
                          'gcc -shared -fPIC -O2 -fwrapv -fno-strict-aliasing -w '
                          '-DNDEBUG -DNPY_NO_DEPRECATED_API=0 {inc} -I"{d}" {csrc} -o "{so}" -lm'
                          ).format(w=work, py=PY, src=src, c=cfile, inc=' '.join(inc),
                                   d=os.path.dirname(src),
                                   csrc=' '.join('"%s"' % s for s in csrc), so=so)
                procs.append((mod, subprocess.Popen(['bash', '-c', script],
                                                    stdout=subprocess.PIPE,
                                                    stderr=subprocess.STDOUT)))
            for mod, p in procs:
                text, _ = p.communicate()
                if p.returncode != 0:
                    raise HarnessError('could not compile %s:\n%s' % (mod, text.decode()[-3000:]))
            if os.path.isdir(dest):
                shutil.rmtree(dest)
            os.rename(out, dest)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return files


def boot():
    """Set the import system up and import regreg from REPO."""
    import warnings
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    sys.meta_path.insert(0, _ToolFinder())
    files = build_extensions()
    sys.meta_path.insert(0, _ExtFinder(files))
    if sys.path[0:1] != [REPO]:
        sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all='ignore')
    import regreg.api
    if not os.path.abspath(regreg.__file__).startswith(REPO + os.sep):
        raise HarnessError('regreg imported from %s' % regreg.__file__)
    for m in EXTS:
        mod = importlib.import_module(m)
        if os.path.abspath(mod.__file__) != os.path.abspath(files[m]):
            raise HarnessError('extension %s imported from %s' % (m, mod.__file__))
    warnings.simplefilter('ignore')
    return regreg
