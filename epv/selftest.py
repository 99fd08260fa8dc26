"""Set-up: the interpreters and libraries the checks need are there.  Nothing is built."""
import subprocess
import sys

from epv.check import PYPY


def main():
    import z3
    import numpy
    r = subprocess.run([PYPY, '-c', 'import numpy, scipy, autograd; print(numpy.__version__, scipy.__version__)'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print('z3', z3.get_version_string(), '| numpy', numpy.__version__, '| repository interpreter:', r.stdout.decode().strip())
    return r.returncode


if __name__ == '__main__':
    sys.exit(main())
