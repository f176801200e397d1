import os
import sys

sys.dont_write_bytecode = True

if sys.version_info[:2] != (3, 12):
    os.execvp('/usr/bin/python3.12', ['/usr/bin/python3.12', '-m', 'sa.check']
              + sys.argv[1:])

from .kit import main

if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(code)
