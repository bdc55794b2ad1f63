#!/opt/venv/bin/python
"""explore.py C12 part [seconds] [tier]: serial exploration of one harness, for development."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ.update(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
from symx import engine, props
pid, part = sys.argv[1:3]
lim = float(sys.argv[3]) if len(sys.argv) > 3 else 30
tier = sys.argv[4] if len(sys.argv) > 4 else 'quick'
fn = props.get(pid)['parts'][part]
if os.environ.get('PROF'):
    import cProfile, pstats
    pr = cProfile.Profile(); pr.enable()
if os.environ.get('DUMP'):
    import faulthandler; faulthandler.dump_traceback_later(float(os.environ['DUMP']), exit=True)
st = [[]]; t0 = time.time(); n = 0; tot = {}
while st and time.time() - t0 < lim:
    t = time.time()
    o, p = engine.run_path(pid, part, fn, st.pop(), tier, 1)
    st += p; n += 1
    tot[o['status']] = tot.get(o['status'], 0) + 1
    if n < 12 or o['status'] != 'ok' or o['time'] > 1:
        print(n, o['status'], o['asserts'], o['discharged'], 'q', o['queries'], 'z3 %.2f' % o['time'], 'unk', o['unknown'], 'wall %.2f' % (time.time() - t), o['choices'], len(o['prefix']), o['err'], o['unconfirmed'], o['violation'] and (o['violation']['label'][:200], o['violation']['failures'][:2]))
print(n, 'paths', tot, 'left', len(st), '%.1f s' % (time.time() - t0))
if os.environ.get('PROF'):
    pr.disable(); pstats.Stats(pr).sort_stats('cumtime').print_stats(35)
