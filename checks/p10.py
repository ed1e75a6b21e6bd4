"""P10: failures and interrupts at any point of a reconstruction."""
import copy, os, random, signal, sys, threading, time, _thread
import numpy as np, torch as t
from torch.utils import data as td
from matplotlib import pyplot as plt
from cdtools import reconstructors
from vf import gen, train as tr, models as vm
from vf.core import tonp

LEVEL = 'fault_enumeration'
RULE = ('an error or an interrupt injected at a random simulation, loss, optimizer step, data access, '
        'regularizer or event-loop call of a random reconstruction, in the background or foreground; '
        'the state afterwards is compared with the recorded states of an undisturbed run; distinct by '
        'place, epoch, step, kind of fault, class and optimizer')
ASSUMPTIONS = ['errors are exceptions derived from Exception and keyboard interrupts; a step of L-BFGS '
               'has no defined intermediate state, so only the records are checked for it']
REQUIRE = {'event_error': 20, 'forward': 40, 'loss': 30, 'step': 20, 'data': 30, 'regularizer': 8, 'interrupt': 40,
           'threaded': 80, 'inline': 80, 'delivered': 150, 'continued': 100, 'in_later_epoch': 40,
           'partial_epoch': 40, 'first_epoch': 40, 'interrupt_in_thread': 20}


def counts_per(ph, md):
    cw = ph['kw'].get('calculation_width', 10)
    return max(-(-len(b) // cw) for b in tr.batches(ph, md))


class Fault(Exception):
    pass


class Loaded(td.Dataset):
    """The dataset as one which fails"""
    def __init__(self, ds, hook):
        self.ds, self.hook, self.n = ds, hook, 0

    def __len__(self):
        return len(self.ds)

    def __getitem__(self, i):
        self.n += 1
        self.hook(self.n - 1)
        return self.ds[i]


TYPES = [Fault, ValueError, RuntimeError, MemoryError, KeyError, ZeroDivisionError, AssertionError, OSError]


def fault(ctx):
    md = tr.make_any(ctx, toy=0.6, n=ctx.integer(2, 7), strided=False)
    m = md.model
    ph = tr.phase(ctx, md, shuffle=False, max_it=4, thread=ctx.flip(0.6))
    ph['route'] = 'recon'
    if ph['opt'] == 'LBFGS':
        ph['kw'].pop('line_search_fn', None)
    if ph['opt'] == 'SGD':
        ph['kw']['lr'] *= 0.3
    ph['iterations'] = its = ctx.integer(1, 4)
    thread = ph['kw']['thread']
    warm = ctx.integer(1, 2) if ctx.flip(0.4) else 0        # completed epochs before
    places = ['forward', 'loss', 'step', 'data', 'interrupt', 'interrupt']
    if 'regularization_factor' in ph['kw']:
        places.append('regularizer')
    place = ctx.choice(places)
    if warm:
        wp = dict(ph, iterations=warm, kw=dict(ph['kw'], thread=False))
        if tr.collect(ctx, md, tr.start(md, wp)[0]) is None:
            return
    seed = ctx.integer(0, 10 ** 6)
    base = copy.deepcopy(m)
    n0 = len(base.loss_history)
    # The undisturbed run
    twin = copy.deepcopy(m)
    g, rec = tr.start(md, dict(ph, kw=dict(ph['kw'], thread=False)), model=twin)
    states = [tr.params(twin)]
    rec.optimizer.register_step_post_hook(lambda *a: states.append(tr.params(twin)))
    counts = dict(forward=[], loss=[], step=[], data=[], regularizer=[])
    loads = []
    with tr.Watch(twin) as w:
        reg = []
        if place == 'regularizer':
            old = twin.regularizer
            twin.regularizer = lambda f: (reg.append(1), old(f))[1]
        t.manual_seed(seed)
        try:
            full = [float(v) for v in g]
        except RuntimeError:
            if tr.finite(twin):
                raise
            return
    twin.__dict__.pop('regularizer', None)
    if not tr.finite(twin) or not np.isfinite(full).all():
        return
    hist = [float(v) for v in twin.loss_history]
    total = dict(forward=len(w.forward), loss=len(w.losses), step=len(states) - 1,
                 data=its * tr.size(ph, md), regularizer=len(reg), interrupt=len(w.forward))[place]
    if total == 0:
        return
    at = ctx.integer(0, total - 1)
    exc = ctx.choice(TYPES)(f'planted {ctx.integer(0, 10 ** 6)}')
    done = []           # how often the fault was raised
    second = place == 'interrupt' and thread and ctx.flip(0.5)
    how = '' if place != 'interrupt' else ctx.choice(['signal', 'events', 'sleep'] if thread else ['raise', 'signal'])
    ctx.param(kind=md.kind, phase=ph, place=place, at=at, how=how, warm=warm, exc=type(exc).__name__)
    sig0 = signal.signal(signal.SIGINT, signal.default_int_handler)
    ds = md.dataset
    undo = []
    slow = ctx.flip(0.5)

    def hook(k):
        if k == at and not done:
            done.append(k)
            raise exc
    events = dict(armed=False)

    noticed = []
    main = threading.main_thread().ident

    def waiting():
        f = sys._current_frames().get(main)
        for _ in range(6):
            if f is not None:
                if f.f_code.co_name == 'join':
                    return True
                f = f.f_back
        return False

    def interrupt(k):
        if slow and thread:
            time.sleep(0.003)
        if k != at or done:
            if done and second and len(done) == 1 and k > at:
                done.append(k)
                ctx.note('second_interrupt')
                _thread.interrupt_main()
            return
        done.append(k)
        if how == 'raise':
            raise KeyboardInterrupt()
        if how == 'signal':
            _thread.interrupt_main()
            if second:
                time.sleep(0.02)
                done.append(k)
                ctx.note('second_interrupt')
                _thread.interrupt_main()
            if not thread:
                for _ in range(50):
                    time.sleep(0.001)
        else:
            events['armed'] = True
            # The foreground gets the time to notice it
            for _ in range(400):
                if not events['armed']:
                    break
                time.sleep(0.001)
            # and to ask for the end, for which it then waits
            for _ in range(2000):
                if events['armed'] or waiting():
                    noticed.append(len(m.loss_history))
                    break
                time.sleep(0.001)
    recon = getattr(reconstructors, ph['opt'] + 'Reconstructor')
    a = dict(subset=ph['subset'])
    if ph.get('lr_factors') is not None and ph['opt'] != 'LBFGS':
        a['lr_factors'] = ph['lr_factors']
    fds = Loaded(ds, hook) if place == 'data' else ds
    rec = recon(m, fds, **a)
    steps = []
    rec.optimizer.register_step_post_hook(lambda *a: steps.append(1))
    if place == 'step':
        before = ctx.flip()
        real = rec.optimizer.step
        cnt = []

        def step(closure=None):
            k = len(cnt)
            cnt.append(1)
            if before:
                hook(k)
            v = real(closure)
            if not before:
                hook(k)
            return v
        rec.optimizer.step = step
    if place == 'regularizer':
        oldreg = m.regularizer
        cntr = []

        def regul(f):
            cntr.append(1)
            hook(len(cntr) - 1)
            return oldreg(f)
        m.regularizer = regul
        undo.append(lambda: m.__dict__.pop('regularizer'))
    if how == 'events':
        fig = plt.figure()

        def flush():
            if events['armed']:
                events['armed'] = False
                raise KeyboardInterrupt()
        fig.canvas.flush_events = flush
    from cdtools.reconstructors import base as rb
    class Clock:
        def __getattr__(self, k):
            return getattr(time, k)

        def sleep(self, s):
            time.sleep(s)
            if events['armed'] and threading.current_thread() is threading.main_thread():
                events['armed'] = False
                raise KeyboardInterrupt()
    if how == 'sleep' and hasattr(rb, 'time'):
        clock = rb.time
        rb.time = Clock()
        undo.append(lambda: setattr(rb, 'time', clock))
    got, caught = [], []
    try:
        try:
            with tr.Watch(m) as w:
                if place == 'forward':
                    w.on_forward = hook
                if place == 'loss':
                    w.on_loss = hook
                if place == 'interrupt':
                    w.on_forward = interrupt
                g, _ = tr.start(md, ph, model=m, recon=rec)
                t.manual_seed(seed)
                try:
                    for v in g:
                        got.append(float(v))
                except BaseException as e:
                    caught.append(e)
                for _ in range(3):
                    # and it is over, and it is raised once
                    try:
                        v = next(g)
                        ctx.expect(False, 'goes_on_after_failure', f'{v}')
                    except StopIteration:
                        pass
                    except KeyboardInterrupt as e:
                        caught.append(e)
                ctx.expect(tr.gone(), 'worker_left', f'{place} {how}')
        except KeyboardInterrupt as e:
            caught.append(e)        # a second one which came late
        time.sleep(0.001)
    except KeyboardInterrupt as e:
        caught.append(e)
    finally:
        signal.signal(signal.SIGINT, sig0)
        for u in undo:
            u()
        plt.close('all')
    if not done:
        ctx.note('not_reached')
        return
    missed = place == 'interrupt' and not caught and events['armed']
    if missed:
        ctx.note('too_late')        # nothing called which could deliver it
        return
    text = f'{md.kind} {ph["opt"]} {place} {how} at {at}'
    if place == 'interrupt':
        ok = 1 <= len(caught) <= len(done) and all(isinstance(c, KeyboardInterrupt) for c in caught)
        ctx.expect(ok, 'delivered_once', f'{caught} for {len(done)} interrupts; {text}')
        ctx.note('interrupt_in_thread', int(thread))
    else:
        # the same error; StopIteration and the like are not used
        ok = len(caught) == 1 and type(caught[0]) is type(exc) and caught[0].args == exc.args
        ctx.expect(ok, 'delivered_once', f'{caught} instead of {exc!r}; {text}')
    ctx.note('delivered', int(ok))
    # the records: of the completed epochs and nothing else
    h = [float(v) for v in m.loss_history]
    ctx.expect(h == hist[:len(h)] and len(h) >= n0, 'history', f'{h} and {hist}; {text}')
    ctx.expect(m.epoch == len(h), 'epoch_number', f'{m.epoch} {len(h)}; {text}')
    ctx.expect(got == hist[n0:n0 + len(got)] and len(h) - n0 - len(got) in ((0, 1) if place == 'interrupt' else (0,)),
               'yielded', f'{got} and {h[n0:]}; {text}')
    want = ''.join(l for l in twin.training_history.splitlines(True))
    mine = tr.strip(m.training_history)
    ctx.expect(tr.strip(want).startswith(mine), 'training_history', f'{mine[-200:]!r}; {text}')
    import re
    ctx.expect(len(re.findall(r'^Epoch +\d+ completed', mine, re.M)) == len(h), 'training_history', text)
    if noticed and not events['armed'] and ph['opt'] != 'LBFGS':
        # asked to stop before the last two batches of the epoch, it does not finish it
        nb = len(tr.batches(ph, md))
        left = nb - 1 - (len([1 for e in w.epochs[:at] if e == noticed[0]]) // max(1, counts_per(ph, md)))
        if left >= 2:
            ctx.note('asked_to_stop')
            ctx.expect(len(h) == noticed[0], 'stops_when_asked', f'{len(h)} {noticed} {left} batches left; {text}')
    # the parameters are those after a number of complete steps
    per = (len(states) - 1) / its
    if ph['opt'] != 'LBFGS':
        k = len(steps)
        ctx.require(k < len(states), 'steps', f'{k}; {text}')
        d = tr.same_params(tr.params(m), states[k])
        ctx.expect(not d, 'parameters_after_steps', f'{d} differ after {k} of {len(states) - 1} steps; {text}')
        ctx.expect(k >= (len(h) - n0) * per and k <= (len(h) - n0 + 1) * per, 'steps', f'{k} {len(h)}; {text}')
        ctx.note('partial_epoch', int(k % per != 0))
    ctx.note('in_later_epoch', int(len(h) > n0))
    ctx.note('first_epoch', int(len(h) == 0))
    ctx.note(place)
    ctx.note('threaded' if thread else 'inline')
    ctx.sig(md.kind, ph['opt'], place, how, thread, at, its, warm)
    ctx.sample(kind=md.kind, phase=ph['opt'], place=place, at=at, how=how, thread=thread, error=type(exc).__name__)
    # A reconstruction can go on: like one of a model which never failed, with these parameters
    if not tr.finite(m):
        return
    cont = dict(tr.phase(ctx, md, opts=('Adam', 'SGD'), shuffle=False, max_it=2), route='recon')
    cont['kw']['thread'] = ctx.flip(0.3)
    clean = copy.deepcopy(base if len(h) == n0 else twin)
    clean.loss_history = [v for v in m.loss_history]
    clean.epoch = len(h)
    clean.training_history = m.training_history
    clean.load_state_dict(copy.deepcopy(m.state_dict()))
    for (_, p), (_, q) in zip(m.named_parameters(), clean.named_parameters()):
        q.requires_grad = p.requires_grad
    t.manual_seed(seed)
    try:
        x = [float(v) for v in tr.start(md, cont, model=clean)[0]]
    except RuntimeError:
        return
    t.manual_seed(seed)
    y = [float(v) for v in tr.start(md, cont, model=m)[0]]
    ctx.expect(np.array_equal(x, y, equal_nan=True), 'continued_losses', f'{y} instead of {x}; {text}')
    ctx.expect(not tr.same_params(tr.params(m), tr.params(clean)), 'continued_parameters', text)
    ctx.expect([float(v) for v in m.loss_history] == h + y or not np.isfinite(y).all(), 'continued_history', text)
    ctx.note('continued')


def event_error(ctx):
    """An error while window events are handled, while the worker computes: it is over then, and the model rests"""
    md = tr.make_any(ctx, toy=0.7, n=ctx.integer(3, 7), strided=False)
    m = md.model
    ph = tr.phase(ctx, md, opts=('Adam', 'SGD'), max_it=4)
    ph['kw'].update(thread=True, batch_size=1, calculation_width=1)
    ph['subset'] = None
    exc = ctx.choice(TYPES)('from an event')
    saving = ctx.flip()
    ctx.param(kind=md.kind, phase=ph, exc=type(exc).__name__, saving=saving)
    at = ctx.integer(0, 3)
    calls = [0]
    forward = m.forward

    def slow(*a):
        time.sleep(0.01)
        return forward(*a)
    caught = None
    plt.close('all')
    fig = plt.figure()

    def flush():
        calls[0] += 1
        if calls[0] == at + 1:
            raise exc
    fig.canvas.flush_events = flush
    m.forward = slow
    name = os.path.join(ctx.dir, 'left.h5')
    try:
        try:
            if saving:
                with m.save_on_exception(name):
                    list(tr.start(md, ph)[0])
            else:
                list(tr.start(md, ph)[0])
        except Exception as e:
            caught = e
            # at this very moment
            running = len(tr.workers())
    finally:
        m.__dict__.pop('forward', None)
        plt.close('all')
    if calls[0] <= at:
        ctx.note('event_error_late')
        ctx.expect(caught is None, 'event_error_delivered', f'{caught!r}')
        return
    ctx.expect(caught is exc, 'event_error_delivered', lambda: f'{caught!r} instead of {exc!r}')
    ctx.expect(running == 0, 'worker_left', 'after an error of a window event')
    a = tr.params(m)
    n = len(m.loss_history)
    time.sleep(0.02)
    ctx.expect(tr.gone(), 'worker_left', 'after an error of a window event')
    ctx.expect(not tr.same_params(a, tr.params(m)) and len(m.loss_history) == n, 'changes_after_failure', lambda: f'{tr.same_params(a, tr.params(m))}')
    ctx.expect(m.epoch == n, 'epoch_number', f'{m.epoch} {n}')
    if saving:
        from cdtools.tools.data import h5_to_nested_dict
        sd = h5_to_nested_dict(name)['state_dict']
        ctx.expect(not tr.same_params({k: v for k, v in a.items() if k in sd}, {k: np.asarray(sd[k]) for k in a if k in sd}), 'saved_state', 'not the state which was left')
    ctx.note('event_error')
    ctx.sig('ee', md.kind, ph['opt'], type(exc).__name__, at, saving)


WORKLOADS = {'event_error': (event_error, 40, 400), 'fault': (fault, 600, 7000)}
