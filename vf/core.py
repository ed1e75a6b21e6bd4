"""The campaign runner shared by all checks.

A check is a set of workloads. A workload is a function which takes a `Ctx`, drives the real
cdtools code on one generated case, and reports to the monitors of the context (`expect`,
`close`, `equal`), which are the oracles that decide. Cases are spread over forked worker
processes, every random choice derives from VERIF_SEED, the property, the workload and the index.

Verdicts are three-valued: violation (exit 1), held (exit 0), inconclusive (exit 2).
"""
import argparse, hashlib, importlib, json, math, os, random, shutil, signal, sys, tempfile
import time, traceback, warnings

warnings.simplefilter('ignore')
import numpy as np
import torch as t

t.set_num_threads(1)

MAX_REPORTED = 5            # VIOLATION lines printed
STALL_S = 150               # wall time on one case before the stall monitor looks at it


def _rng_seed(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'little')


class Violation(Exception):
    """Raised by Ctx.require: continuing the case makes no sense"""


class Skip(Exception):
    """The case generated nothing valid"""


class Ctx:
    def __init__(self, prop, workload, index, seed, tier, scratch, repo, verif):
        self.prop, self.workload, self.index = prop, workload, index
        self.seed, self.tier = seed, tier
        self.repo, self.verif = repo, verif
        s = _rng_seed(seed, prop, workload, index)
        self.case_seed = s
        self.rng = np.random.default_rng(s)
        self.scratch_root = scratch
        self._dir = None
        self.events = {}
        self.checks = {}
        self.margins = {}
        self.violations = []
        self.sigs = []
        self.samples = []
        self.params = {}

    # ---- case description ------------------------------------------------
    @property
    def dir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix='case_', dir=self.scratch_root)
        return self._dir

    def param(self, **kw):
        self.params.update(kw)

    def choice(self, options):
        return options[int(self.rng.integers(len(options)))]

    def flip(self, p=0.5):
        return bool(self.rng.random() < p)

    def integer(self, lo, hi):
        """inclusive"""
        return int(self.rng.integers(lo, hi + 1))

    def uniform(self, lo, hi, size=None):
        v = self.rng.uniform(lo, hi, size)
        return float(v) if size is None else v

    # ---- observation -----------------------------------------------------
    def note(self, event, n=1):
        self.events[event] = self.events.get(event, 0) + n

    def sig(self, *parts):
        """Register a distinct non-trivial case (canonicalized)"""
        self.sigs.append(self.workload + ':' + '/'.join(str(p) for p in parts))

    def sample(self, **kw):
        if not self.samples:
            self.samples.append(_jsonable(kw))

    def violate(self, mech, msg):
        if len(self.violations) < 20:
            self.violations.append(dict(mechanism=mech, message=str(msg)[:2000]))

    def expect(self, cond, mech, msg=''):
        self.checks[mech] = self.checks.get(mech, 0) + 1
        ok = bool(cond)
        if not ok:
            self.violate(mech, msg() if callable(msg) else msg)
        return ok

    def require(self, cond, mech, msg=''):
        if not self.expect(cond, mech, msg):
            raise Violation(mech)

    def close(self, got, want, mech, rtol=1e-4, atol=0.0, msg='', scale=None):
        """|got-want| <= atol + rtol * scale, scale defaults to the largest |want|.
        Shapes and finiteness patterns have to agree."""
        try:
            g, w = tonp(got), tonp(want)
        except Exception as e:
            return self.expect(False, mech, f'{msg}: not array-like ({e!r})')
        if g.shape != w.shape:
            return self.expect(False, mech, f'{msg}: shape {g.shape} instead of {w.shape}')
        if g.size == 0:
            return self.expect(True, mech)
        g = g.astype(np.complex128) if np.iscomplexobj(g) else g.astype(np.float64)
        w = w.astype(np.complex128) if np.iscomplexobj(w) else w.astype(np.float64)
        fg, fw = np.isfinite(g), np.isfinite(w)
        if not np.array_equal(fg, fw):
            return self.expect(False, mech, f'{msg}: finite at {int(fg.sum())} instead of '
                                            f'{int(fw.sum())} of {g.size} entries')
        if not fw.any():
            return self.expect(True, mech)
        d = np.abs(g[fw] - w[fw])
        s = float(np.max(np.abs(w[fw]))) if scale is None else float(scale)
        tol = atol + rtol * s
        m = float(d.max())
        if tol > 0:
            r = m / tol
            if r > self.margins.get(mech, -1):
                self.margins[mech] = r
        return self.expect(m <= tol, mech,
                           lambda: f'{msg}: max deviation {m:.4g} exceeds {tol:.4g} '
                                   f'(got {_brief(g)}, expected {_brief(w)})')

    def equal(self, got, want, mech, msg=''):
        """Exact equality of arrays, including shape and NaN positions"""
        try:
            g, w = tonp(got), tonp(want)
        except Exception as e:
            return self.expect(False, mech, f'{msg}: not array-like ({e!r})')
        if g.shape != w.shape:
            return self.expect(False, mech, f'{msg}: shape {g.shape} instead of {w.shape}')
        if g.dtype.kind in 'fc' and w.dtype.kind in 'fcbiu':
            ok = np.array_equal(g, w, equal_nan=True)
        else:
            ok = np.array_equal(g, w)
        return self.expect(ok, mech, lambda: f'{msg}: got {_brief(g)}, expected {_brief(w)}')

    # ---- known finding helper --------------------------------------------
    def finish(self):
        import matplotlib.pyplot as plt
        plt.close('all')
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)


def plain(o):
    return o.tolist() if hasattr(o, 'tolist') else repr(o)


def tonp(x):
    if isinstance(x, t.Tensor):
        return x.detach().cpu().resolve_conj().resolve_neg().numpy()
    if x is None:
        raise TypeError('None')
    a = np.asarray(x)
    if a.dtype == object:
        raise TypeError('object array')
    return a


def _brief(a):
    a = np.asarray(a)
    s = np.array2string(a.ravel()[:6], precision=6)
    return f'{s}{"..." if a.size > 6 else ""} shape {a.shape}'


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, t.Tensor):
        x = tonp(x)
    if isinstance(x, np.ndarray):
        if x.size > 12:
            return f'array{x.shape} {x.dtype}'
        if np.iscomplexobj(x):
            return [str(v) for v in x.ravel()]
        return x.tolist()
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x) if math.isfinite(x) else str(x)
    return str(x)


def blame(tb, repo_src, verif):
    """Which side raised: the innermost frame which belongs to cdtools or to the harness"""
    side = None
    for fs in traceback.extract_tb(tb):
        fn = os.path.abspath(fs.filename)
        if fn.startswith(repo_src + os.sep):
            side = 'repo'
        elif fn.startswith(verif + os.sep):
            side = 'harness'
    return side


def run_case(mod, prop, workload, index, seed, tier, scratch, repo, verif):
    ctx = Ctx(prop, workload, index, seed, tier, scratch, repo, verif)
    s32 = ctx.case_seed % (2 ** 32)
    np.random.seed(s32)
    random.seed(s32)
    t.manual_seed(s32)
    t.set_default_dtype(t.float32)
    fn = mod.WORKLOADS[workload][0]
    rec = dict(w=workload, i=index, status='ok')
    t0 = time.monotonic()
    cwd = os.getcwd()
    try:
        fn(ctx)
    except Violation:
        pass
    except Skip as e:
        rec['status'] = 'skip'
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) and not getattr(mod, 'CATCH_KI', True):
            raise
        side = blame(e.__traceback__, os.path.join(repo, 'src'), verif)
        text = ''.join(traceback.format_exception(e))[-3500:]
        if side == 'repo':
            ctx.violate(f'exception:{workload}:{type(e).__name__}', text)
        else:
            rec['status'] = 'harness'
            rec['error'] = text
    finally:
        os.chdir(cwd)
        ctx.finish()
    rec.update(events=ctx.events, checks=ctx.checks, margins=ctx.margins, sigs=ctx.sigs,
               samples=ctx.samples, violations=ctx.violations, params=_jsonable(ctx.params),
               dt=time.monotonic() - t0)
    return rec


def _cpu_of(pid):
    try:
        with open(f'/proc/{pid}/stat') as f:
            p = f.read().rsplit(')', 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf('SC_CLK_TCK')
    except Exception:
        return None


def campaign(mod, prop, seed, tier, repo, verif, only=None):
    import multiprocessing as mp
    mpc = mp.get_context('fork')
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    if only is not None:
        cases = list(only)
    else:
        lists = []
        for name, spec in mod.WORKLOADS.items():
            n = spec[1] * getattr(mod, 'QUICK', 1) if tier == 'quick' else spec[2]
            n = max(1, int(math.ceil(n * scale)))
            lists.append([(name, i) for i in range(n)])
        # Interleave the workloads proportionally, so that all of them advance together
        tagged = []
        for l in lists:
            tagged += [((k + 0.5) / len(l), c) for k, c in enumerate(l)]
        tagged.sort(key=lambda x: x[0])
        cases = [c for _, c in tagged]
    budget = float(os.environ.get('VERIF_BUDGET', '420' if tier == 'quick' else '3300'))
    scratch = tempfile.mkdtemp(prefix=f'vf_{prop}_')
    nw = int(os.environ.get('VERIF_WORKERS', min(8, os.cpu_count() or 1)))
    nw = max(1, min(nw, len(cases)))
    counter = mpc.Value('i', 0)
    t_start = time.monotonic()

    def worker(k):
        os.setpgid(0, 0)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        err = os.open(os.path.join(scratch, f'err_{k}'), os.O_WRONLY | os.O_CREAT, 0o600)
        os.dup2(err, 2)
        sys.stdout = open(1, 'w', closefd=False)
        sys.stderr = open(2, 'w', closefd=False)
        t.set_num_threads(1)
        out = open(os.path.join(scratch, f'out_{k}'), 'w')
        while True:
            with counter.get_lock():
                j = counter.value
                counter.value += 1
            if j >= len(cases):
                break
            if time.monotonic() - t_start > budget:
                out.write(json.dumps(dict(w=cases[j][0], i=cases[j][1], status='budget')) + '\n')
                continue
            w, i = cases[j]
            out.write(json.dumps(dict(w=w, i=i, status='start')) + '\n')
            out.flush()
            rec = run_case(mod, prop, w, i, seed, tier, scratch, repo, verif)
            out.write(json.dumps(rec, default=plain) + '\n')
            out.flush()
        out.close()
        os._exit(0)

    sys.stdout.flush()
    pids = {}
    for k in range(nw):
        pid = os.fork()
        if pid == 0:
            try:
                worker(k)
            except BaseException:
                try:
                    with open(os.path.join(scratch, f'dead_{k}'), 'w') as f:
                        f.write(traceback.format_exc())
                finally:
                    os._exit(3)
        pids[pid] = k

    # Wait, and look for stalled cases.
    stalls = []
    problems = []
    live = dict(pids)
    seen = {k: (0, time.monotonic(), _cpu_of(p)) for p, k in pids.items()}
    while live:
        try:
            pid, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid:
            if pid in live:
                k = live.pop(pid)
                if st != 0:
                    problems.append((k, f'worker {k} ended with status {st}'))
            continue
        time.sleep(0.05)
        now = time.monotonic()
        for pid, k in list(live.items()):
            try:
                size = os.path.getsize(os.path.join(scratch, f'out_{k}'))
            except OSError:
                size = 0
            if size != seen[k][0]:
                seen[k] = (size, now, _cpu_of(pid))
            elif now - seen[k][1] > STALL_S:
                cpu0, cpu1 = seen[k][2], _cpu_of(pid)
                used = None if cpu0 is None or cpu1 is None else cpu1 - cpu0
                # Only a deadlock (no CPU used) or a livelock (CPU time used) counts as a stall,
                # a machine which just does not schedule the process does not.
                if used is not None and (used < 2 or used > 60) or now - seen[k][1] > 4 * STALL_S:
                    stalls.append((k, used))
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    live.pop(pid)
    for pid in pids:
        try:
            os.killpg(pid, signal.SIGKILL)   # anything a case left behind
        except OSError:
            pass

    recs, started = [], {}
    for k in range(nw):
        last_started = None
        try:
            with open(os.path.join(scratch, f'out_{k}')) as f:
                for line in f:
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    if r['status'] == 'start':
                        last_started = r
                    else:
                        recs.append(r)
                        if r['status'] != 'budget':
                            last_started = None
        except OSError:
            pass
        if last_started is not None:
            started[k] = last_started
    for k, used in stalls:
        c = started.get(k)
        if c is not None:
            recs.append(dict(w=c['w'], i=c['i'], status='stall', events={}, checks={}, margins={},
                             sigs=[], samples=[], params={}, dt=0,
                             violations=[dict(mechanism=f'stall:{c["w"]}',
                                              message=f'the case never finished '
                                                      f'({used} s of CPU time used)')]))
    for k, p in problems:
        c = started.get(k)
        txt = ''
        for fn in (f'dead_{k}', f'err_{k}'):
            try:
                with open(os.path.join(scratch, fn)) as f:
                    txt += f.read()[-1500:]
            except OSError:
                pass
        recs.append(dict(w=c['w'] if c else '?', i=c['i'] if c else -1, status='harness',
                         error=p + '\n' + txt))
    shutil.rmtree(scratch, ignore_errors=True)
    order = {c: n for n, c in enumerate(cases)}
    recs.sort(key=lambda r: order.get((r['w'], r['i']), 1 << 30))
    return cases, recs


def load_known(verif):
    """KNOWN_FINDINGS.txt: 'open: property=<id> mechanism=<m> <text>' and
    'fixed: property=<id> <commit> <text>' lines. Only open ones suppress."""
    known = {}
    try:
        with open(os.path.join(verif, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('open:'):
                    parts = line.split(None, 3)
                    p = parts[1].split('=', 1)[1]
                    m = parts[2].split('=', 1)[1]
                    known[(p, m)] = parts[3] if len(parts) > 3 else ''
    except OSError:
        pass
    return known


def main(argv, verif, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--workload')
    ap.add_argument('--index', type=int)
    a = ap.parse_args(argv)
    prop = a.property
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = _rng_seed(os.environ['VERIF_SEED']) % (2 ** 31)
    t0 = time.monotonic()
    only = None
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        seed, tier = r['seed'], r['tier']
        only = [(r['workload'], r['index'])]
    elif a.workload is not None:
        only = [(a.workload, a.index)] if a.index is not None else None

    os.makedirs(os.path.join(verif, 'evidence'), exist_ok=True)
    ev_path = os.path.join(verif, 'evidence', prop + '.json')
    try:
        import cdtools
        src = os.path.abspath(cdtools.__file__)
        if not src.startswith(os.path.abspath(os.path.join(repo, 'src')) + os.sep):
            print(f'INCONCLUSIVE property={prop}: cdtools comes from {src}')
            return 2
    except Exception as e:
        # A tree which cannot even be imported cannot be judged.
        traceback.print_exc()
        print(f'INCONCLUSIVE property={prop}: cdtools cannot be imported: {e!r}')
        return 2
    mod = importlib.import_module('checks.' + prop.lower())
    if a.workload is not None and only is None:
        mod.WORKLOADS = {a.workload: mod.WORKLOADS[a.workload]}
        mod.REQUIRE = {}
    cases, recs = campaign(mod, prop, seed, tier, repo, verif, only)

    events, checks, margins, perw = {}, {}, {}, {}
    sigs, samples, harness, viols = set(), [], [], []
    evals = skips = cut = 0
    slow = 0.0
    for r in recs:
        if r['status'] == 'budget':
            cut += 1
            continue
        if r['status'] == 'harness':
            harness.append(r)
        if r['status'] == 'skip':
            skips += 1
        for k, v in r.get('events', {}).items():
            events[k] = events.get(k, 0) + v
        for k, v in r.get('checks', {}).items():
            checks[k] = checks.get(k, 0) + v
        for k, v in r.get('margins', {}).items():
            if v == v:
                margins[k] = max(margins.get(k, 0), v)
        if r['status'] in ('ok', 'stall'):
            evals += 1
            perw[r['w']] = perw.get(r['w'], 0) + 1
            sigs.update(r.get('sigs', []))
            if len([s for s in samples if s['workload'] == r['w']]) < 2:
                for s in r.get('samples', []):
                    samples.append(dict(workload=r['w'], index=r['i'], case=s))
        slow = max(slow, r.get('dt', 0))
        for v in r.get('violations', []):
            viols.append((r, v))

    known = load_known(verif)
    fresh, found = {}, {}
    for r, v in viols:
        key = (prop, v['mechanism'])
        (found if key in known else fresh).setdefault(v['mechanism'], []).append((r, v))

    wall = time.monotonic() - t0
    level = getattr(mod, 'LEVEL', 'exploration')
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=mod.RULE,
                      samples=samples[:24] or ['none'],
                      cases_per_workload=perw, events_observed=events,
                      monitor_evaluations=checks,
                      worst_deviation_as_fraction_of_tolerance={k: round(v, 6) for k, v in
                                                                margins.items()},
                      cases_skipped=skips, cases_not_started_for_time=cut,
                      slowest_case_s=round(slow, 2),
                      known_findings_seen=sorted(found)),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(wall, 2), violations=len(viols) - sum(len(x) for x in found.values()))
    if not a.replay and a.workload is None:
        tmp = ev_path + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
        os.replace(tmp, ev_path)

    for m, l in sorted(found.items()):
        print(f'KNOWN-FINDING: property={prop} {m}: {known[(prop, m)]} ({len(l)} cases)')
    if os.environ.get('VERIF_VERBOSE') or a.replay or a.workload is not None:
        print(json.dumps(evidence['coverage'], indent=1))
    print(f'{prop} {tier} seed={seed}: {evals} cases, {len(sigs)} distinct, '
          f'{sum(checks.values())} monitor evaluations, {wall:.1f} s')

    if fresh:
        rdir = os.path.join(verif, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        n = 0
        for m, l in sorted(fresh.items(), key=lambda x: -len(x[1])):
            r, v = l[0]
            name = f'{prop}-{tier}-{seed}-' + hashlib.sha256(m.encode()).hexdigest()[:8] + '.json'
            path = os.path.join(rdir, name)
            with open(path, 'w') as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, workload=r['w'], index=r['i'],
                               mechanism=m, message=v['message'], params=r.get('params'),
                               cases_with_this_mechanism=len(l)), f, indent=1)
            if n < MAX_REPORTED:
                print(f'VIOLATION property={prop} replay={os.path.relpath(path, verif)} '
                      f'mechanism={m}')
                print('    ' + v['message'].strip().replace('\n', '\n    ')[-1800:])
            n += 1
        return 1

    if a.replay:
        for h in harness:
            print(h.get('error', ''))
        return 2 if harness else 0
    bad = []
    if harness:
        bad.append(f'{len(harness)} cases failed in the harness, the first one '
                   f'({harness[0]["w"]} {harness[0]["i"]}):\n{harness[0].get("error")}')
    for k, n in getattr(mod, 'REQUIRE', {}).items():
        have = events.get(k, 0) + checks.get(k, 0)
        if have < n:
            bad.append(f'the monitors saw {have} {k} instead of at least {n}')
    if evals == 0:
        bad.append('no case ran')
    if bad:
        for b in bad:
            print(f'INCONCLUSIVE property={prop}: {b}')
        return 2
    return 0
