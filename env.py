"""Process set-up shared by every entry point: interpreter path, scratch dirs."""
import os, sys, warnings, tempfile, atexit, shutil
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('OCELOT_REPO', '/repo')
SCRATCH = tempfile.mkdtemp(prefix='pyvc-')
atexit.register(shutil.rmtree, SCRATCH, True)
os.environ['XDG_DATA_HOME'] = SCRATCH
os.environ['XDG_CACHE_HOME'] = SCRATCH
os.environ['HOME'] = SCRATCH
warnings.simplefilter('ignore')
if HERE not in sys.path:
    sys.path.insert(0, HERE)
if REPO not in sys.path:
    sys.path.insert(0, REPO)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
sys.setrecursionlimit(20000)


def start():
    import pyvc.models as M
    import ocelot
    import logging
    for n in ('ocelot', 'ocelot-detailed'):
        lg = logging.getLogger(n)
        lg.handlers[:] = [logging.NullHandler()]
        lg.propagate = False
        lg.setLevel(logging.CRITICAL)
    M.register_libs()
