#!/usr/bin/env python3
"""Entry point: python3 run.py <PROPERTY> [--replay FILE] [--tier quick|thorough].

Re-executes itself with the interpreter that has /repo's dependencies and a
pinned environment, then hands over to pdv.core.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
ENV = {
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONHASHSEED': '0',
    'JAX_PLATFORMS': 'cpu',
    'CUDA_VISIBLE_DEVICES': '',
    'TF_CPP_MIN_LOG_LEVEL': '3',
    'TF_ENABLE_ONEDNN_OPTS': '0',
    'MPLBACKEND': 'Agg',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'XLA_FLAGS': (
        '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
    ),
    'PDV_REEXEC': '1',
}

if __name__ == '__main__':
  if os.environ.get('PDV_REEXEC') != '1':
    env = dict(os.environ)
    env.update(ENV)
    env.pop('PYTHONPATH', None)
    os.execve(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:], env)
  sys.path.insert(0, HERE)
  from pdv import core

  sys.exit(core.main(sys.argv[1:]))
