#!/opt/venv/bin/python
"""check.py C04 [--tier quick|thorough]: decide one property on /repo's working tree."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ.update(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from symx import engine
    rc = 0
    for pid in args:
        rc = max(rc, engine.check(pid, tier, seed))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
