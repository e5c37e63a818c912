"""
Entry point of all checks:  run.py <property> [--tier quick|thorough] [--case NAME] [--jobs N]
Replay of a stored failure: run.py --replay <file>

Exit 0: the property held on everything generated. Exit 1 with a VIOLATION line: it is broken.
Any other exit code: the check itself did not work.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PYTHON = '/opt/venv/bin/python'
HYPOTHESIS_PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

WANTED_ENV = {
    'PYTHONHASHSEED': '0',
    'PYTHONDONTWRITEBYTECODE': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'OMP_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1',
    'PBT_CLEAN_ENV': '1',
}


def clean_environment():
    """Restart in a fixed environment, so that a run depends only on the code and on VERIF_SEED."""
    if os.environ.get('PBT_CLEAN_ENV') == '1' and os.path.realpath(sys.prefix) == '/opt/venv':
        return
    env = dict(os.environ)
    for name in list(env):
        if name.startswith('PYTHON') or name.startswith('HYPOTHESIS'):
            del env[name]
    env.update(WANTED_ENV)
    if not os.path.exists(PYTHON):
        sys.stderr.write('error: %s is missing\n' % PYTHON)
        sys.exit(2)
    sys.stdout.flush()
    os.execve(PYTHON, [PYTHON, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == '__main__':
    clean_environment()
    sys.path[0] = VERIF
    sys.path.append(HYPOTHESIS_PATH)
    from pbt import core
    sys.exit(core.main(sys.argv[1:], VERIF))
