"""Serves the translated optimizer modules as sonolus.backend._opt.* in this process."""
import hashlib
import importlib.abc
import importlib.util
import os
import pickle
import sys

from vp import cyrt

VENV = "/opt/venv/lib/python3.12/site-packages"


def use_repo(repo):
    if repo not in sys.path:
        sys.path.insert(0, repo)
    if VENV not in sys.path:
        sys.path.append(VENV)


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, src, optdir):
        self.src = src
        self.optdir = optdir

    def find_spec(self, name, path, target=None):
        pre = "sonolus.backend._opt."
        if name.startswith(pre) and name[len(pre):] in self.src:
            return importlib.util.spec_from_loader(name, self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        short = mod.__name__.rsplit(".", 1)[1]
        fn = f"<translated {short}.pyx>"
        code = compile(self.src[short], fn, "exec")
        import linecache
        linecache.cache[fn] = (len(self.src[short]), None, self.src[short].splitlines(True), fn)
        exec(code, mod.__dict__)
        cyrt.link()


def translated(repo):
    """{module: python source} for the current tree"""
    from vp import pyx2py
    return pyx2py.translate(os.path.join(repo, "sonolus/backend/_opt"))[0]


def install(repo):
    """after this, importing sonolus.backend._opt.X in this process runs the translated source"""
    use_repo(repo)
    optdir = os.path.join(repo, "sonolus/backend/_opt")
    cyrt.load_ops(optdir)
    src = translated(repo)
    assert not any(k.startswith("sonolus.backend._opt.") for k in sys.modules)
    sys.meta_path.insert(0, _Finder(src, optdir))
    return src
