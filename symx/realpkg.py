"""The real package, imported from /repo's current tree, with the real phamt (or,
to count the entries touched, with the counting stand-in for it)."""
import importlib
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'


def _phamt():
    try:
        import phamt
    except ImportError:
        sys.path.append(SITE)
        import phamt
    return phamt


def load(stub=False):
    """Import pcollections afresh; returns the package."""
    phamt = _phamt()
    for m in [m for m in sys.modules if m == 'pcollections' or m.startswith('pcollections.')]:
        del sys.modules[m]
    if stub:
        import types
        from . import stubs
        st = types.ModuleType('phamt')
        st.PHAMT = stubs.PHAMT; st.THAMT = stubs.THAMT
        sys.modules['phamt'] = st
    sys.path.insert(0, REPO)
    try:
        importlib.invalidate_caches()
        pkg = importlib.import_module('pcollections')
        importlib.import_module('pcollections.abc')
        importlib.import_module('pcollections.util')
    finally:
        sys.path.remove(REPO)
        sys.modules['phamt'] = phamt
    assert os.path.realpath(pkg.__file__).startswith(os.path.realpath(REPO) + os.sep), pkg.__file__
    return pkg
