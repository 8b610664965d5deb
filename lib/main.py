import importlib, os, sys, traceback
if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
    os.environ['VERIF_TIER'] = sys.argv[2]
import vf
try:
    rc = importlib.import_module(sys.argv[1]).run_check()
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    print('ERROR: the check of %s could not be completed' % sys.argv[1])
    rc = 2
    c = getattr(vf.Check, 'latest', None)
    if c is not None and c.violations:
        rc = c.finish()       # what was found before stands
sys.stdout.flush()
sys.exit(rc)
