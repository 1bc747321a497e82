"""Booting simulated processes of kcorrect.

A *node* is one incarnation of the package: every `kcorrect*` module executed
afresh from the source files of the repository under test, inside an
"installation directory" (package `__file__`) that the simulator owns.  Several
nodes can exist in one run (a restarted program, or two programs sharing a
disk); exactly one is active at any time.

Only the *source text* is cached between boots (compiled once per worker, so
that every incarnation shares code objects and the scheduler can place its
yield points once); module state never is.
"""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PKG = os.path.join(SRC, 'kcorrect')


class _Loader(importlib.abc.Loader):
    def __init__(self, code):
        self.code = code

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(self.code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Resolves kcorrect and its submodules to repository source."""

    def __init__(self):
        self.codes = {}
        self.install = PKG

    def source_of(self, name):
        rel = name.split('.')
        base = os.path.join(SRC, *rel)
        if os.path.isfile(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        return None, None

    def code_of(self, name):
        if name not in self.codes:
            path, ispkg = self.source_of(name)
            if path is None:
                self.codes[name] = None
            else:
                with open(path, 'rb') as fp:
                    src = fp.read()
                self.codes[name] = (compile(src, path, 'exec', dont_inherit=True), path, ispkg)
        return self.codes[name]

    def find_spec(self, name, path=None, target=None):
        if name != 'kcorrect' and not name.startswith('kcorrect.'):
            return None
        ent = self.code_of(name)
        if ent is None:
            return None
        code, srcpath, ispkg = ent
        where = os.path.join(self.install, os.path.relpath(srcpath, PKG))
        spec = importlib.machinery.ModuleSpec(name, _Loader(code), origin=where,
                                              is_package=ispkg)
        spec.has_location = True
        if ispkg:
            spec.submodule_search_locations = [os.path.dirname(where)]
        return spec

    def all_codes(self):
        """Every code object of the package except module bodies."""
        out = []
        for name in sorted(self.codes):
            ent = self.codes[name]
            if ent is None:
                continue
            stack = [ent[0]]
            first = True
            while stack:
                c = stack.pop()
                for k in c.co_consts:
                    if isinstance(k, types.CodeType):
                        stack.append(k)
                        if not _is_class_body(k):
                            out.append(k)
        return out


def _is_class_body(c):
    return '__qualname__' in c.co_names and '__module__' in c.co_names and c.co_argcount == 0


FINDER = Finder()


def install_finder():
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)


def _take():
    mods = {k: sys.modules[k] for k in list(sys.modules)
            if k == 'kcorrect' or k.startswith('kcorrect.')}
    for k in mods:
        del sys.modules[k]
    return mods


class Node:
    """One incarnation of the package."""
    active = None

    def __init__(self, name, install):
        self.name = name
        self.install = install
        self.modules = {}
        self.crashed = False
        self.cwd = None
        self.boot()

    def boot(self):
        install_finder()
        prev = Node.active
        if prev is not None:
            prev.modules = _take()
        else:
            _take()
        FINDER.install = self.install
        Node.active = self
        self.kcorrect = importlib.import_module('kcorrect')
        for sub in ('kcorrect.response', 'kcorrect.template', 'kcorrect.fitter',
                    'kcorrect.kcorrect', 'kcorrect.utils'):
            importlib.import_module(sub)
        m = sys.modules
        self.response = m['kcorrect.response']
        self.template = m['kcorrect.template']
        self.fitter = m['kcorrect.fitter']
        self.kc = m['kcorrect.kcorrect']
        self.utils = m['kcorrect.utils']

    def activate(self):
        if Node.active is self:
            return
        if Node.active is not None:
            Node.active.modules = _take()
        else:
            _take()
        sys.modules.update(self.modules)
        FINDER.install = self.install
        Node.active = self

    # conveniences -------------------------------------------------------
    def rdict(self):
        return self.response.ResponseDict()


def shutdown():
    """Forget every incarnation (end of a run)."""
    _take()
    Node.active = None
