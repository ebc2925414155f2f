import argparse
import os
import shutil
import sys
import tempfile

from wmv import clock

if sys.argv[1:2] in (['W14'], ['W24']) and 'WMV_CLOCK' not in os.environ:
    # start again with a clock that can be set
    os.environ['WMV_CLOCK'] = tempfile.mkdtemp(prefix='wmv.')
    so = clock.build(os.environ['WMV_CLOCK'])
    if so:
        os.environ['LD_PRELOAD'] = so
        os.execv(sys.executable, [sys.executable, '-m', 'wmv.main'] +
                 sys.argv[1:])
    shutil.rmtree(os.environ.pop('WMV_CLOCK'))

from wmv.common import run_check            # noqa: E402

p = argparse.ArgumentParser()
p.add_argument('property')
p.add_argument('tier', nargs='?')
p.add_argument('--replay')
a = p.parse_args()
tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
seed = int(os.environ.get('VERIF_SEED') or 1)
# compiled modules for the processes that checks start: what this process
# compiles now, and nothing older
cache = tempfile.mkdtemp(prefix='wmv.')
sys.pycache_prefix = os.environ['PYTHONPYCACHEPREFIX'] = cache
sys.dont_write_bytecode = False
code = run_check(a.property, tier, seed, a.replay)
sys.stdout.flush()
shutil.rmtree(cache, ignore_errors=True)
if 'WMV_CLOCK' in os.environ:
    shutil.rmtree(os.environ['WMV_CLOCK'], ignore_errors=True)
os._exit(code)
