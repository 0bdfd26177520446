#!/usr/bin/env python3
"""Entry point of every check:  check.py C01 [--replay FILE] [--runs N] [--digests OUT]

Exit 0: held on everything explored.  Exit 1 and a line
`VIOLATION property=<id> replay=<path>`: broken.  Exit 2: harness error.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = dict(
    PYTHONPATH=HERE + ':' + os.environ.get('MARSH_SIM_REPO', '/repo'),
    PYTHONHASHSEED=os.environ.get('MARSH_SIM_HASHSEED', '0'),
    PYTHONDONTWRITEBYTECODE='1',
    TZ='UTC',
    LC_ALL='C.UTF-8',
    COLUMNS='80',
    LINES='24',
    MARSH_SIM_CHILD='1',
)

if os.environ.get('MARSH_SIM_CHILD') != '1':
    env = {
        k: v for k, v in os.environ.items()
        if not k.startswith(('PYTHON', 'MARSH_')) or k.startswith('MARSH_SIM_')
    }
    env.update(ENV)
    try:
        # the same addresses in every process
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.join(HERE, 'check.py')] + sys.argv[1:], env)

from sim import core  # noqa: E402

if sys.argv[1:] == ['--zygote']:
    core.Zygotes.main()

if __name__ == '__main__':
    core.main(sys.argv[1:])
