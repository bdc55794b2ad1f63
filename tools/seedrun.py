#!/opt/venv/bin/python
"""Development aid: run the check of each planted bug's property on a scratch copy with the bug applied.
seedrun.py [id ...]   prints caught / missed / inconclusive.  Not used by any check."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(H, 'seeded')))
def run(i):
    d = os.path.join(H, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        for x in ('composipy', 'tests'):
            shutil.copytree('/repo/' + x, w + '/' + x)
        subprocess.run(['git', 'init', '-q', w]); subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w, check=True)
        p = subprocess.run(['/opt/venv/bin/python', 'check.py', prop], cwd=os.environ.get('VDIR', H), capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=w, VERIF_JOBS='3', VERIF_EVIDENCE=w))
        out = p.stdout + p.stderr
        v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        s = 'caught' if p.returncode == 1 and v else 'missed' if p.returncode == 0 else 'inconclusive %d %s' % (p.returncode, out[-1500:])
        return i, prop, s
    finally:
        shutil.rmtree(w)
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(run, ids):
        print(*r, flush=True)
