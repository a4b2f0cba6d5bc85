"""Import hook: serves the package `jpt` from /repo's current sources, Cython modules lowered mechanically, every
loop passed through the loop hook (loops.py), numpy/math replaced in the modules' globals by symbolic-aware shims."""
import ast
import importlib.abc
import importlib.util
import os
import sys
import types

from . import rt as _rt_mod
from .lower import lower_module, LoweringError


class Loader(importlib.abc.Loader):
    def __init__(self, cfg, fullname, path, kind):
        self.cfg, self.fullname, self.path, self.kind = cfg, fullname, path, kind

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        tree = self.cfg.tree(self.fullname, self.path, self.kind)
        code = compile(tree, self.path, 'exec', dont_inherit=True)
        module.__dict__['__rt__'] = _rt_mod
        module.__dict__.update(self.cfg.inject)
        if self.cfg.builtins:
            import builtins
            b = dict(vars(builtins))
            b.update(self.cfg.builtins)
            module.__dict__['__builtins__'] = b
        exec(code, module.__dict__)
        for k, v in self.cfg.shims.items():
            g = module.__dict__
            for name, val in list(g.items()):
                if val is k:
                    g[name] = v


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, cfg):
        self.cfg = cfg

    def find_spec(self, fullname, path, target=None):
        if fullname != 'jpt' and not fullname.startswith('jpt.'):
            return None
        base = os.path.join(self.cfg.src, *fullname.split('.'))
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_loader(fullname, Loader(self.cfg, fullname, p, 'py'), origin=p,
                                                   is_package=True)
        for ext in ('py', 'pyx'):
            p = base + '.' + ext
            if os.path.exists(p):
                return importlib.util.spec_from_file_location(
                    fullname, p, loader=Loader(self.cfg, fullname, p, ext))
        return None


class Config:
    def __init__(self, src='/repo/src', transform=None, shims=None, builtins=None, inject=None):
        self.src = src
        self.transform = transform
        self.shims = shims or {}
        self.builtins = builtins or {}
        self.inject = inject or {}
        self.trees = {}

    def tree(self, fullname, path, kind):
        if kind == 'py':
            with open(path, encoding='utf8') as f:
                src = f.read()
            t = ast.parse(src, path)
        else:
            t, _ = lower_module(path, fullname)
        if self.transform is not None:
            t = self.transform(t, fullname)
        ast.fix_missing_locations(t)
        self.trees[fullname] = t
        return t


def install(cfg):
    for k in [k for k in sys.modules if k == 'jpt' or k.startswith('jpt.')]:
        del sys.modules[k]
    sys.meta_path.insert(0, Finder(cfg))
    return cfg
