#!/opt/venv/bin/python
"""replay.py FILE: run a recorded counterexample against the real package; exit 1 when it fails there."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))


def main():
    std = '--stdin' in sys.argv
    req = json.load(sys.stdin) if std else json.load(open(sys.argv[1]))
    real = sys.stdout
    sys.stdout = sys.stderr
    from symx import engine, props
    fn = props.get(req['property'])['parts'][req['part']]
    outs = [engine.run_concrete(fn, c, req['tier']) for c in req['cases']]
    sys.stdout = real
    if std:
        print(json.dumps(outs, default=str))
        return 0
    bad = 0
    for c, o in zip(req['cases'], outs):
        print(json.dumps(c))
        for f in o['failures']:
            print('FAILS:', f)
            bad = 1
    return bad


if __name__ == '__main__':
    sys.exit(main())
