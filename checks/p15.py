"""P15: results are saved when a reconstruction ends, in whichever way it ends."""
import contextlib, copy, io, os
import numpy as np, torch as t
from cdtools.tools import data as cdata
from vf import gen, train as tr, models as vm
from vf.core import tonp

LEVEL = 'fault_enumeration'
RULE = ('reconstructions inside the saving contexts, ended normally, by leaving the block early, or by an '
        'error, interrupt or exit injected at a random place, in background and foreground, nested or '
        'not; the files are compared with the state at that moment; distinct by ending, place and context')
ASSUMPTIONS = ['the body does not raise StopIteration, which Python turns into another error in generators']
# Cases of the quick tier, relative to the numbers below
QUICK = 2
REQUIRE = {'save_on_exit': 80, 'save_on_exception': 80, 'normal': 40, 'early': 15, 'error': 60, 'KeyboardInterrupt': 15,
           'SystemExit': 15, 'other_file': 25, 'nested': 15, 'in_epoch': 40, 'between_epochs': 30, 'restored': 50}


class Fault(Exception):
    pass


class Odd(BaseException):
    pass


def disk(fn):
    return cdata.h5_to_nested_dict(fn)


def same(ctx, got, want, mech, msg):
    ctx.expect(set(got) == set(want), mech, f'{sorted(set(got) ^ set(want))} {msg}')
    for k in want:
        if k not in got:
            continue
        if isinstance(want[k], dict):
            same(ctx, got[k], want[k], mech, msg)
        elif isinstance(want[k], str):
            ctx.expect(got[k] == want[k], mech, f'{k}: {got[k]!r:.80} {want[k]!r:.80} {msg}')
        else:
            a, b = np.asarray(got[k]), np.asarray(want[k])
            ctx.expect(a.shape == b.shape and np.array_equal(a, b, equal_nan=b.dtype.kind in 'fc'), mech, f'{k} {msg}')


def run(ctx):
    md = tr.make_any(ctx, n=ctx.integer(2, 6))
    m, ds = md.model, md.dataset
    args = () if md.kind == 'toy' or ctx.flip(0.3) else (copy.deepcopy(ds),)
    if args:
        # which is told from the positions that the model keeps itself
        args[0].translations = args[0].translations * 1.001
    ph = tr.phase(ctx, md, schedule=False, max_it=4)
    ph['kw'].pop('line_search_fn', None)
    if ph['opt'] == 'SGD':
        ph['kw']['lr'] *= 0.4
    thread = ph['kw']['thread']
    context = ctx.choice(['save_on_exit', 'save_on_exception'])
    ending = ctx.choice(['normal', 'early', 'error', 'error', 'error', 'KeyboardInterrupt', 'SystemExit', 'odd'])
    place = ctx.choice(['epoch', 'between'])
    if ending in ('KeyboardInterrupt', 'SystemExit', 'odd') and thread:
        place = 'between'
    exc = {'error': ctx.choice([Fault, ValueError, MemoryError, KeyError, AssertionError])(f'planted {ctx.integer(0, 99999)}'),
           'KeyboardInterrupt': KeyboardInterrupt('planted'), 'SystemExit': SystemExit(3), 'odd': Odd('planted')}.get(ending)
    fn, fn2 = os.path.join(ctx.dir, 'a.h5'), os.path.join(ctx.dir, 'b.h5')
    use2 = context == 'save_on_exit' and ctx.flip()
    nested = ctx.flip(0.2)
    old = ctx.flip(0.2)
    if old:
        for f in (fn, fn2):
            cdata.nested_dict_to_h5(f, {'old': 1})
    ctx.param(kind=md.kind, phase=ph, context=context, ending=ending, place=place, use2=use2, nested=nested)
    at = ctx.integer(0, ph['iterations'] - 1)
    where = ctx.integer(0, 3)
    if context == 'save_on_exit':
        cm = m.save_on_exit(fn, *args, **(dict(exception_filename=fn2) if use2 else {}))
    else:
        cm = m.save_on_exception(fn, *args)
    state = {}
    raised = None

    def now():
        # what should be saved at this moment
        return copy.deepcopy(m.save_results(*args))
    reached = []
    out = io.StringIO()

    def body():
        nonlocal m
        with tr.Watch(m) as w:
            if place == 'epoch' and exc is not None:
                def hook(k):
                    if len(m.loss_history) == at and not reached:
                        seen.append(1)
                        if len(seen) > where:
                            reached.append(k)
                            raise exc
                seen = []
                w.on_forward = hook
            g, _ = tr.start(md, ph)
            k = 0
            for v in g:
                if place == 'between' and exc is not None and k == at:
                    reached.append(k)
                    raise exc
                if ending == 'early' and k == at:
                    reached.append(k)
                    g.close()
                    break
                k += 1
    inner = os.path.join(ctx.dir, 'inner.h5')
    diverged = False
    try:
        with contextlib.redirect_stdout(out):
            with cm as given:
                if nested:
                    with m.save_on_exception(inner, *args):
                        body()
                    ctx.note('nested')
                else:
                    body()
    except BaseException as e:
        raised = e
    if raised is not None and raised is not exc and isinstance(raised, RuntimeError) and not tr.finite(m):
        return
    if exc is not None and not reached:
        exc = None
        ending = 'normal'
    text = f'{md.kind} {context} {ending} {place} thread={thread}'
    ctx.expect((raised is None) == (exc is None) and
               (exc is None or (type(raised) is type(exc) and raised.args == exc.args)),
               'error_reaches_caller', f'{raised!r} instead of {exc!r}; {text}')
    ctx.expect(tr.gone(), 'worker_left')
    want = now()
    target = fn if context == 'save_on_exception' or exc is None or not use2 else fn2
    if context == 'save_on_exit' or exc is not None:
        ctx.require(os.path.exists(target), 'not_saved', text)
        same(ctx, disk(target), want, 'saved_state', text)
        if hasattr(type(m), 'from_results_h5') and md.kind != 'toy':
            new = type(m).from_results_h5(target)
            ctx.expect(not tr.same_params(tr.params(m), tr.params(new)), 'restored_state', text)
            ctx.expect(np.array_equal(np.array(new.loss_history, float), np.array(m.loss_history, float), equal_nan=True), 'restored_state', text)
            ctx.note('restored')
    others = [f for f in (fn, fn2) if not (f == target and (context == 'save_on_exit' or exc is not None))]
    for f in others:
        if old:
            ctx.expect(os.path.exists(f) and set(disk(f)) == {'old'}, 'other_file_written', f'{os.path.basename(f)} {text}')
        else:
            ctx.expect(not os.path.exists(f), 'other_file_written', f'{os.path.basename(f)} {text}')
    if nested:
        ctx.expect(os.path.exists(inner) == (exc is not None), 'nested', text)
        if exc is not None and os.path.exists(inner):
            same(ctx, disk(inner), want, 'saved_state', 'inner ' + text)
    ctx.note(context)
    ctx.note(ending)
    ctx.note('other_file', int(use2 and exc is not None))
    ctx.note('in_epoch', int(exc is not None and place == 'epoch'))
    ctx.note('between_epochs', int(exc is not None and place == 'between'))
    ctx.sig(md.kind, context, ending, place, use2, nested, old, at, thread)
    ctx.sample(kind=md.kind, context=context, ending=ending, place=place, epoch=at)


WORKLOADS = {'run': (run, 320, 4500)}
