"""Makes hypothesis importable, offline, from the wheels of the sandbox.

Unpacked once into /verif/.deps (ignored by git); setup_cmd runs this, and
every check runs it again in case the folder is missing."""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(VERIF, '.deps')
WHEELS = '/opt/veriftools/wheels'
WANTED = ('hypothesis-[0-9]*-cp312-cp312-*.whl', 'sortedcontainers-*.whl',
          'attrs-*.whl')


def ensure():
    if not os.path.isfile(os.path.join(DEPS, 'hypothesis', '__init__.py')):
        tmp = tempfile.mkdtemp(dir=VERIF, prefix='.deps-')
        for pattern in WANTED:
            found = sorted(glob.glob(os.path.join(WHEELS, pattern)))
            if not found:
                raise SystemExit('bootstrap: no wheel ' + pattern)
            with zipfile.ZipFile(found[-1]) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:    # made by someone else meanwhile
            shutil.rmtree(tmp)
    if DEPS not in sys.path:
        sys.path.insert(0, DEPS)


if __name__ == '__main__':
    ensure()
    import hypothesis
    print('hypothesis', hypothesis.__version__)
