#!/opt/venv/bin/python
"""check.py ID            run the check of property ID (VERIF_SEED, VERIF_TIER)
check.py ID --replay F  run again the case stored in F by a failed check"""
import os
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('SDEPY_REPO', '/repo')    # tree under test
ENV = dict(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')


def main():
    scratch = tempfile.mkdtemp(prefix='sdepy-pbt-')
    env = dict(os.environ, **ENV)
    # no stale byte code is read, none is left in /repo
    env['PYTHONPYCACHEPREFIX'] = os.path.join(scratch, 'pyc')
    env['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    env['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(scratch, 'hyp')
    env['SDEPY_REPO'] = REPO
    env['PBT_SCRATCH'] = scratch
    env['PYTHONPATH'] = os.pathsep.join([REPO, HERE])
    env.pop('PYTHONSTARTUP', None)
    import subprocess
    try:
        return subprocess.call([PY, '-m', 'pbt.run'] + sys.argv[1:], env=env,
                               cwd=scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
