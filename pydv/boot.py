"""Imports z3 (from the tool environment) and the package under verification from REPO, without
reading or writing any bytecode cache of the repository."""
import os, sys, types, tempfile, atexit, shutil
REPO = os.environ.get('PYDV_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_tmp = tempfile.mkdtemp(prefix='pydv_')
atexit.register(shutil.rmtree, _tmp, True)
sys.pycache_prefix = _tmp
sys.dont_write_bytecode = True

def load_z3():
    if 'z3' not in sys.modules:
        sys.path.append(VT)
        try:
            import z3
        finally:
            sys.path.remove(VT)
    return sys.modules['z3']

def load_repo():
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, 'quantities', '_version.py')):
        m = types.ModuleType('quantities._version')
        m.__version__ = '0'
        sys.modules['quantities._version'] = m
    import warnings
    warnings.simplefilter('ignore')
    import quantities
    assert os.path.realpath(quantities.__file__).startswith(os.path.realpath(REPO) + os.sep), quantities.__file__
    return quantities
