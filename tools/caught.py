"""Runs the check of each planted bug's property (or the checks given with -c) on a copy of /repo with the bug"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks = None
if args[:1] == ['-c']:
    checks, args = args[1].split(','), args[2:]
for id in args or sorted(os.listdir(VERIF + '/seeded')):
    s = f'{VERIF}/seeded/{id}'
    prop = json.load(open(s + '/meta.json'))['property']
    d = tempfile.mkdtemp(prefix='caught_', dir='/tmp')
    try:
        shutil.copytree('/repo/src', d + '/src', ignore=shutil.ignore_patterns('__pycache__'))
        subprocess.run(['git', 'apply', s + '/patch.diff'], cwd=d, check=True)
        shutil.copytree(VERIF, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded'))
        for c in checks or [prop]:
            r = subprocess.run(['/opt/venv/bin/python', d + '/verif/run.py', c], env={**os.environ, 'VERIF_REPO': d},
                               capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith(('VIOL', 'INCON'))]
            print(id, c, 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode}', '|', '; '.join(v)[:160],
                  r.stderr[-200:] if r.returncode not in (0, 1) else '', flush=True)
    finally:
        shutil.rmtree(d)
