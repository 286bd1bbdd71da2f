#!/usr/bin/env python3
"""Entry point of every check:  check.py P01 [--tier quick|thorough] [--replay FILE] [--cases N] [--seed N]

Runs the monitored workloads of one property against a fresh copy of the package in
/repo's working tree.  Exit 0: held on everything explored; 1: VIOLATION line; 2: the
check itself could not give an answer."""
import os
import sys

PY = '/opt/venv/bin/python'
ENV = {
    'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
    'PYTHONUTF8': '1', 'PYTHONIOENCODING': 'utf-8', 'TZ': 'UTC', 'LC_ALL': 'C.UTF-8',
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
}
if __name__ == '__main__':
    if os.environ.get('MKMON_CHILD') != '1':
        env = dict(os.environ)
        env.pop('PYTHONPATH', None)
        env.pop('PYTHONSTARTUP', None)
        env.update(ENV)
        env['MKMON_CHILD'] = '1'
        env.setdefault('HOME', '/root')
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, '-W', 'ignore', '-B', os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from mkmon import core
    sys.exit(core.main(sys.argv[1:]))
