#!/usr/bin/env python3
"""Entry point:  dst.py check C01 --tier quick | replay FILE | selftest [C01 ...]

Re-executes itself under the library's interpreter with a fixed environment, so
that hash seeds and thread counts are not sources of nondeterminism.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = {'PYTHONHASHSEED': os.environ.get('DST_HASHSEED', '0'), 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1',
       'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'TQDM_DISABLE': '1', 'MPLBACKEND': 'Agg',
       'NUMBA_NUM_THREADS': '1', 'CUDA_VISIBLE_DEVICES': '', 'DST_CHILD': '1'}


def main():
    if os.environ.get('DST_CHILD') != '1':
        env = dict(os.environ, **ENV)
        scratch = os.path.join(HERE, '.scratch')
        os.makedirs(os.path.join(scratch, 'mpl'), exist_ok=True)
        env.setdefault('MPLCONFIGDIR', os.path.join(scratch, 'mpl'))
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, '-u', os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from simkit import runner
    sys.exit(runner.main(sys.argv[1:]))


if __name__ == '__main__':
    main()
