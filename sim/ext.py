"""
The factorization package needs the Cython extension `aideme.active_learning.factorization.utils`. It is compiled from
/repo's current utils.pyx into a cache folder keyed by the source (never into /repo), the first time something uses it.
"""
import glob
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import types

from .kernel import REPO, VERIF

NAME = 'aideme.active_learning.factorization.utils'
PYX = os.path.join(REPO, 'aideme/active_learning/factorization/utils.pyx')

SETUP = """
from setuptools import setup, Extension
from Cython.Build import cythonize
import numpy
setup(name='x', script_args=['-q', 'build_ext', '--build-lib', '.'], ext_modules=cythonize(
    [Extension('%s', ['utils.pyx'], include_dirs=[numpy.get_include()])], quiet=True,
    language_level='3'))
"""


def build():
    """ :return: path to the compiled extension """
    with open(PYX, 'rb') as f:
        key = hashlib.sha256(f.read() + SETUP.encode() + sys.version.encode()).hexdigest()[:20]
    root = os.path.join(VERIF, '.cache')
    final = os.path.join(root, 'ext-' + key)
    hit = glob.glob(os.path.join(final, '**', 'utils*.so'), recursive=True)
    if hit:
        return hit[0]
    os.makedirs(root, exist_ok=True)
    tmp = os.path.join(root, 'tmp-{}-{}'.format(key, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try:
        shutil.copy(PYX, os.path.join(tmp, 'utils.pyx'))
        with open(os.path.join(tmp, 'setup.py'), 'w') as f:
            f.write(SETUP % NAME)
        r = subprocess.run([sys.executable, 'setup.py'], cwd=tmp, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('cannot compile the Cython extension:\n' + r.stdout[-2000:] + r.stderr[-2000:])
        try:
            os.rename(tmp, final)
        except OSError:  # somebody else was faster
            pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return glob.glob(os.path.join(final, '**', 'utils*.so'), recursive=True)[0]


def load():
    path = build()
    loader = importlib.machinery.ExtensionFileLoader(NAME, path)
    spec = importlib.util.spec_from_file_location(NAME, path, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    return mod


class LazyModule(types.ModuleType):
    def __getattr__(self, attr):
        if attr.startswith('__') and attr.endswith('__'):
            raise AttributeError(attr)
        real = self.__dict__.get('_real')
        if real is None:
            real = load()
            self.__dict__['_real'] = real
        return getattr(real, attr)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        return importlib.machinery.ModuleSpec(fullname, self) if fullname == NAME else None

    def create_module(self, spec):
        return LazyModule(spec.name)

    def exec_module(self, module):
        pass


def install():
    if not os.path.exists(PYX):
        return  # rewritten in another form: use whatever the package itself provides
    sys.meta_path.insert(0, Finder())


def warm():
    """ compile now: called before workers are forked by checks whose runs use the extension """
    if os.path.exists(PYX):
        m = sys.modules[NAME]
        m._real = load() if isinstance(m, LazyModule) and '_real' not in m.__dict__ else m.__dict__.get('_real')
