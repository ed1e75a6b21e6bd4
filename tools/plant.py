"""Writes and confirms a planted bug: plant.plant(...), called from scripts outside of /verif/seeded.

It makes the patch in a scratch copy of /repo, checks that only original lines change, that the demonstration passes on
/repo and fails on the copy, and that the stable tests still pass on the copy.
"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', CUDA_VISIBLE_DEVICES='',
           OMP_NUM_THREADS='2', MKL_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2')
COMMON = '''"""Small datasets and models for the demonstrations"""
import numpy as np, torch as t
from cdtools.datasets import Ptycho2DDataset
from cdtools import models


def dataset(n=7, shape=(16, 20), seed=0, intensities=None, **kw):
    rng = np.random.default_rng(seed)
    basis = np.array([[0, -3e-5], [-3e-5, 0], [0, 0]])
    geo = dict(distance=0.05, basis=basis, corner=np.array([2.5e-4, 2e-4, 0.05]))
    tr = np.zeros((n, 3)); tr[:, :2] = rng.uniform(-4e-6, 4e-6, (n, 2))
    y, x = np.mgrid[:shape[0], :shape[1]]
    spot = 500 * np.exp(-((y - shape[0] / 2) ** 2 + (x - shape[1] / 2) ** 2) / 20)
    pats = rng.poisson(spot + 3, (n,) + shape).astype(np.float32)
    return Ptycho2DDataset(tr, pats, intensities=intensities, wavelength=1e-9, detector_geometry=geo, **kw)


def fancy(ds, seed=1, **kw):
    t.manual_seed(seed)
    m = models.FancyPtycho.from_dataset(ds, **{**dict(n_modes=2, obj_padding=4, units='um', randomize_ang=0.3), **kw})
    return m


def run(loop):
    return [float(x) for x in loop]


def check(cond, *msg):
    if not cond:
        print('FAILED', *msg)
        raise SystemExit(1)
'''


def sh(cmd, cwd, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, env={**os.environ, **ENV, **(env or {})}, capture_output=True, text=True,
                       timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def plant(id, prop, file, edits, needs, breaks, demo, tests=True):
    d = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    out = os.path.join(VERIF, 'seeded', id)
    try:
        subprocess.run(f'git -C /repo archive HEAD | tar -x -C {d}', shell=True, check=True)
        subprocess.run('git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x', shell=True, cwd=d, check=True)
        blame = {}
        for f, old, new in [(e if len(e) == 3 else (file,) + tuple(e)) for e in edits]:
            p = os.path.join(d, 'src/cdtools', f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'REJECTED: text found', s.count(old), 'times:', old[:80]); return False
            at = s[:s.index(old)].count('\n') + 1
            _, b = sh(['git', 'blame', '-s', '-l', f'-L{at},{at + old.rstrip(chr(10)).count(chr(10))}', 'HEAD', '--', 'src/cdtools/' + f], '/repo')
            _, base = sh(['git', 'merge-base', '--is-ancestor', '7758eae', 'HEAD'], '/repo')
            for l in b.splitlines():
                h = l.split()[0].lstrip('^')
                rc, _ = sh(['git', 'merge-base', '--is-ancestor', h, '7758eae'], '/repo')
                if rc:
                    print(id, 'NOTE not an original line:', l[40:140])
            open(p, 'w').write(s.replace(old, new))
        _, diff = sh(['git', 'diff'], d)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/common.py', 'w').write(COMMON)
        open(out + '/demo.py', 'w').write(demo.lstrip('\n'))
        open(out + '/demo.sh', 'w').write('#!/bin/bash\n# run in /repo\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=\n'
                                          'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
        rc, o = sh(['git', 'apply', '--check', out + '/patch.diff'], '/repo')
        ok = rc == 0
        if not ok: print(id, 'patch does not apply', o)
        rc0, o0 = sh(['bash', out + '/demo.sh'], '/repo', dict(PYTHONPATH='/repo/src'), 300)
        rc1, o1 = sh(['bash', out + '/demo.sh'], d, dict(PYTHONPATH=d + '/src'), 300)
        print(id, 'demo clean', rc0, 'patched', rc1, '|', o1.strip().splitlines()[-1][:150] if o1.strip() else '')
        if rc0: print(o0[-800:])
        ok = ok and rc0 == 0 and rc1 != 0
        if ok and tests:
            xml = d + '/r.xml'
            sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--runslow', '--reconstruction_device', 'cpu', '-n', '4',
                '--timeout=600', '-o', 'junit_family=xunit2', '--junitxml=' + xml, 'tests'], d, dict(PYTHONPATH=d + '/src'))
            sh(['python3', '/opt/vp/results.py', d + '/out.json', 'junit:' + xml], d)
            got = set(json.load(open(d + '/out.json'))['passed'])
            lost = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - got
            ok = not lost
            print(id, 'tests', 'pass' if ok else f'LOST {len(lost)} {sorted(lost)[:3]}')
        if not ok:
            shutil.move(out, '/tmp/rejected_' + id + '_' + os.path.basename(d))
        print(id, 'KEPT' if ok else 'REJECTED', flush=True)
        return ok
    finally:
        shutil.rmtree(d)
