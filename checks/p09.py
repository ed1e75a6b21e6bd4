"""P09: a reconstruction in the background thread is the same as one in the foreground."""
import copy, random, sys, threading, time
import numpy as np, torch as t
from matplotlib import pyplot as plt
from cdtools import reconstructors
from vf import gen, train as tr, models as vm
from vf.core import tonp

RULE = ('the same random sequence of optimization calls in the background and in the foreground, from '
        'equal copies and equal states of the random generator, with random delays in the worker and in '
        'the foreground, short switch intervals, open figures and interleaved other reconstructions; '
        'distinct by class, optimizers, options and kind of disturbance')
ASSUMPTIONS = ['both runs use one computing thread of torch, so that equal operations give equal bits']
# Cases of the quick tier, relative to the numbers below
QUICK = 1.5
REQUIRE = {'pairs': 60, 'delays': 30, 'figures': 15, 'epochs_in_thread': 150, 'suspensions': 60,
           'interleaved': 20, 'abandoned': 10, 'foreground_reads': 100, 'shuffled': 20, 'LBFGS': 15,
           'reused': 20, 'window_events': 100, 'closed': 20, 'opened': 15, 'selected': 15}


def outcome(m, recons, losses):
    o = [None if r is None else r.optimizer.state_dict()['state'] for r in recons]
    return dict(losses=list(losses), params=tr.params(m), epoch=m.epoch, history=[float(v) for v in m.loss_history],
                text=tr.strip(m.training_history), opt=o,
                req={k: p.requires_grad for k, p in m.named_parameters()})


def differ(a, b):
    out = []
    for k in ('losses', 'history'):
        if not (len(a[k]) == len(b[k]) and np.array_equal(a[k], b[k], equal_nan=True)):
            out.append(f'{k}: {a[k][:4]} and {b[k][:4]}')
    for k in ('epoch', 'text', 'req'):
        if a[k] != b[k]:
            out.append(f'{k}: {str(a[k])[:80]} and {str(b[k])[:80]}')
    d = tr.same_params(a['params'], b['params'])
    if d:
        out.append('parameters ' + ', '.join(d))

    def walk(x, y, path):
        if isinstance(x, dict):
            if set(x) != set(y):
                out.append(f'{path}: {list(x)} and {list(y)}')
            else:
                for k in x:
                    walk(x[k], y[k], f'{path}.{k}')
        elif isinstance(x, (list, tuple)):
            if len(x) != len(y):
                out.append(f'{path}: lengths')
            else:
                for k, (p, q) in enumerate(zip(x, y)):
                    walk(p, q, f'{path}[{k}]')
        elif isinstance(x, t.Tensor):
            if not np.array_equal(tonp(x), tonp(y), equal_nan=True):
                out.append(path)
        elif x != y and not (x != x and y != y):
            out.append(path)
    walk(a['opt'], b['opt'], 'optimizer state')
    return out


def execute(ctx, md, phases, thread, disturb, seed, plan):
    """plan: for each call whether to go on with the previous reconstructor, and when to stop"""
    m = md.model
    rnd = random.Random(seed + 7)
    t.manual_seed(seed)
    losses, recons = [], []
    rec = None
    with tr.Watch(m) as w:
        if thread and disturb['delays']:
            w.on_forward = lambda k: time.sleep(rnd.choice([0, 0, 0.0005, 0.002, 0.012]))
        for ph, (again, stop) in zip(phases, plan):
            ph = dict(ph, kw=dict(ph['kw'], thread=thread))
            if again and rec is not None:
                g, rec = tr.start(md, ph, model=m, recon=rec)
            else:
                g, rec = tr.start(md, ph, model=m)
            recons.append(rec)
            k = 0
            while stop is None or k < stop:
                try:
                    v = next(g)
                except StopIteration:
                    break
                k += 1
                losses.append(float(v))
                if thread:
                    ctx.note('epochs_in_thread')
                    ctx.note('worker_alive_while_suspended', len(tr.workers()))
                    if disturb['pause'] and rnd.random() < 0.7:
                        # nothing happens to the model while the caller has the control
                        a, f = tr.params(m), len(w.forward)
                        time.sleep(rnd.choice([0.001, 0.004]))
                        ctx.note('suspensions')
                        ctx.expect(len(w.forward) == f and not tr.same_params(a, tr.params(m)),
                                   'activity_while_suspended')
                    if disturb['reads']:
                        m.report(), m.state_dict()
                        ctx.note('foreground_reads')
            if stop is not None:
                g.close()
            del g
            ctx.expect(tr.gone(), 'worker_left')
    ctx.note('workers_at_once', w.max_workers)
    ctx.expect(w.max_workers <= 1 if thread else w.max_workers == 0, 'more_than_one_worker', f'{w.max_workers}')
    me = threading.current_thread().name
    ctx.note('computed_in_worker' if any(x != me for x in w.threads) else 'computed_in_foreground')
    return outcome(m, recons, losses)


def pairs(ctx):
    md = tr.make_any(ctx, toy=0.6, n=ctx.integer(2, 7))
    phases, plan = [], []
    for k in range(ctx.integer(1, 3)):
        ph = tr.phase(ctx, md, max_it=3)
        again = k > 0 and ctx.flip(0.5)
        if again:
            o = phases[-1]
            if o['route'] == 'recon' or True:
                ph = dict(o, iterations=ph['iterations'], kw=dict(o['kw']))
                ph['route'] = 'recon'
        stop = ctx.integer(0, ph['iterations']) if ctx.flip(0.25) else None
        phases.append(ph)
        plan.append((again, stop))
        ctx.note('abandoned', int(stop is not None and stop < ph['iterations']))
        ctx.note('reused', int(again))
        ctx.note(ph['opt'])
        ctx.note('shuffled', int(ph.get('shuffle', True) and ph['opt'] != 'LBFGS'))
    disturb = dict(delays=ctx.flip(), pause=ctx.flip(0.6), reads=ctx.flip(0.4), figures=ctx.flip(0.3),
                   switch=ctx.flip(0.4))
    ctx.param(kind=md.kind, phases=phases, plan=plan, disturb=disturb)
    seed = ctx.integer(0, 10 ** 6)
    a = md
    b = vm.Made(kind=md.kind, spec=md.spec, dataset=copy.deepcopy(md.dataset), model=copy.deepcopy(md.model), cfg=md.cfg)
    old = sys.getswitchinterval()
    try:
        if disturb['figures']:
            for k in range(2):
                plt.figure()
                plt.plot([1, 2])
            ctx.note('figures')
        if disturb['switch']:
            sys.setswitchinterval(1e-5)
        oa = err_a = ob = err_b = None
        try:
            oa = execute(ctx, a, phases, True, disturb, seed, plan)
        except RuntimeError as e:
            err_a = str(e)
        sys.setswitchinterval(old)
        try:
            ob = execute(ctx, b, phases, False, disturb, seed, plan)
        except RuntimeError as e:
            err_b = str(e)
    finally:
        sys.setswitchinterval(old)
        plt.close('all')
    if err_a is not None or err_b is not None:
        if (err_a is not None and tr.finite(a.model)) or (err_b is not None and tr.finite(b.model)):
            raise RuntimeError(err_a or err_b)
        ctx.expect(err_a == err_b, 'thread_or_not', f'{err_a} and {err_b}')
        ctx.note('diverged')
        return
    d = differ(oa, ob)
    ctx.expect(not d, 'thread_or_not', f'{md.kind}: {"; ".join(d)[:500]}')
    ctx.note('pairs')
    ctx.note('delays', int(disturb['delays']))
    ctx.sig(md.kind, [p['opt'] for p in phases], plan, tuple(disturb.values()))
    ctx.sample(kind=md.kind, opts=[p['opt'] for p in phases], disturb=disturb)


def interleaved(ctx):
    """Several reconstructions advanced in turn, of which each is as if it were alone"""
    mds, alone, phs = [], [], []
    for k in range(ctx.integer(2, 3)):
        md = tr.make_any(ctx, toy=0.7, n=ctx.integer(2, 6))
        ph = tr.phase(ctx, md, opts=('Adam', 'SGD'), shuffle=False, max_it=4)
        ph['route'] = 'recon'
        ph['kw']['lr'] *= 0.3
        ph['kw']['thread'] = ctx.flip(0.7)
        m = copy.deepcopy(md.model)
        g, rec = tr.start(md, ph, model=m)
        alone.append(outcome(m, [rec], [float(v) for v in g]))
        mds.append(md)
        phs.append(ph)
    gens = [tr.start(md, ph) for md, ph in zip(mds, phs)]
    losses = [[] for _ in mds]
    live = list(range(len(mds)))
    while live:
        k = ctx.choice(live)
        try:
            losses[k].append(float(next(gens[k][0])))
        except StopIteration:
            live.remove(k)
    ctx.expect(tr.gone(), 'worker_left')
    for k, md in enumerate(mds):
        d = differ(outcome(md.model, [gens[k][1]], losses[k]), alone[k])
        ctx.expect(not d, 'interleaved', f'{md.kind} {phs[k]["opt"]}: {"; ".join(d)[:500]}')
    ctx.note('interleaved')
    ctx.sig('i', [md.kind for md in mds], [p['iterations'] for p in phs], [p['kw']['thread'] for p in phs])


def windows(ctx):
    """Events are handled while the worker computes: what they do to windows lasts, and nothing else happens to windows"""
    md = tr.make_any(ctx, toy=1, n=ctx.integer(2, 5))
    ph = tr.phase(ctx, md, max_it=4)
    ph['kw']['thread'] = True
    forward = md.model.forward

    def slow(*a):
        time.sleep(0.015)
        return forward(*a)
    md.model.forward = slow
    active = lambda: plt.gcf().number if plt.get_fignums() else None
    state = lambda: (plt.get_fignums(), active(), plt.rcParams['lines.linewidth'])
    seen = dict(events=0)
    rng = np.random.default_rng(ctx.integer(0, 10 ** 6))

    def check(where):
        now = state()
        ctx.expect(now == seen['state'], 'windows_changed', lambda: f'{where}: {seen["state"]} became {now} after {seen["last"]}')

    def add():
        fig = plt.figure()
        flush, number = fig.canvas.flush_events, fig.number

        def events():
            check('during an event')
            ctx.expect(threading.current_thread() is threading.main_thread(), 'events_in_worker', '')
            seen['events'] += 1
            # a window which was closed gets no more events
            ctx.expect(number in seen['state'][0], 'events_of_closed_window', lambda: f'{number} {seen["state"]}')
            flush()
            do = rng.random()
            nums = plt.get_fignums()
            if do < 0.25 and len(nums) > 1:
                k = int(rng.choice(nums))
                plt.close(k)
                seen['last'] = f'{number} closed {k}'
                ctx.note('closed')
            elif do < 0.4 and len(nums) < 6:
                add()
                seen['last'] = f'{number} opened a window'
                ctx.note('opened')
            elif do < 0.55:
                k = int(rng.choice(nums))
                plt.figure(k)
                seen['last'] = f'{number} selected {k}'
                ctx.note('selected')
            elif do < 0.65:
                plt.rcParams['lines.linewidth'] = float(rng.integers(1, 9))
                seen['last'] = f'{number} set the width of lines'
            seen['state'] = state()
        fig.canvas.flush_events = events
    width = plt.rcParams['lines.linewidth']
    seen['last'] = 'the start'
    try:
        for k in range(ctx.integer(2, 5)):
            add()
        plt.figure(ctx.integer(1, len(plt.get_fignums())))
        seen['state'] = state()
        for loss in tr.start(md, ph)[0]:
            check('after an epoch')
            if ctx.flip(0.3):
                plt.figure(ctx.choice(plt.get_fignums()))
                seen['state'], seen['last'] = state(), 'the foreground selected'
    finally:
        plt.close('all')
        plt.rcParams['lines.linewidth'] = width
    ctx.note('window_events', seen['events'])
    ctx.sig('w', ph['opt'], ph['iterations'], seen['events'])


WORKLOADS = {'windows': (windows, 30, 300), 'pairs': (pairs, 150, 2500), 'interleaved': (interleaved, 50, 800)}
