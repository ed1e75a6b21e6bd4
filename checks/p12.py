"""P12: the reported losses and the records of a reconstruction."""
import copy, re
import numpy as np, torch as t
from vf import gen, ref, train as tr, models as vm, refmodel as rm
from vf.core import tonp, Skip

RULE = ('random sequences of optimization calls on models of all classes, with the records of the '
        'model followed after every epoch; and epochs with steps of length zero, whose losses are '
        'compared with a float64 reference; distinct by class, optimizers and options')
ASSUMPTIONS = ['the normalization of the losses is the one of the first epoch which a model completes']
# Cases of the quick tier, relative to the numbers below
QUICK = 1.5
REQUIRE = {'sequence': 60, 'reference_loss': 100, 'amplitude mse': 20, 'poisson nll': 20,
           'intensity mse': 20, 'masked': 40, 'reports': 100, 'abandoned': 15, 'diverged': 50, 'recovered': 50}


def books(ctx, m, hist, epochs0=0, msg=''):
    h = m.loss_history
    ctx.expect(isinstance(h, list) and len(h) == len(hist), 'history_length', f'{len(h)} {len(hist)} {msg}')
    if len(h) == len(hist):
        ctx.equal(np.array(h, np.float64), np.array(hist, np.float64), 'history_values', msg)
    ctx.expect(m.epoch == len(hist), 'epoch_number', f'{m.epoch} {len(hist)} {msg}')


def sequence(ctx):
    md = tr.make_any(ctx)
    m = md.model
    hist = []
    books(ctx, m, hist)
    ctx.expect(m.report() == 'No reconstruction iterations performed yet!', 'report', m.report())
    lines = []
    for k in range(ctx.integer(1, 4)):
        ph = tr.phase(ctx, md)
        t0 = m.training_history
        stop = ctx.integer(0, ph['iterations']) if ctx.flip(0.3) else None
        g, _ = tr.start(md, ph)
        n = 0
        bad = False
        for k2 in range(ph['iterations'] if stop is None else stop):
            try:
                v = next(g)
            except RuntimeError:
                if tr.finite(m):
                    raise
                bad = True
                break
            n += 1
            hist.append(float(v))
            books(ctx, m, hist, msg=str(ph))
            r = m.report()
            got = re.fullmatch(r'Epoch +(\d+) completed in \d+\.\d\d s with loss (\S+)', r)
            if ctx.expect(got is not None, 'report', r):
                ctx.expect(int(got.group(1)) == len(hist), 'report', r)
                ctx.expect(got.group(2) == f'{float(v):.5e}' or not np.isfinite(v), 'report', r)
            ctx.note('reports')
            lines.append((len(hist), float(v)))
        if bad:
            return
        if stop is None:
            ctx.expect(next(g, None) is None, 'number_of_epochs', 'one more than asked for')
        else:
            g.close()
            ctx.note('abandoned')
        books(ctx, m, hist, msg=str(ph))
        ctx.expect(m.training_history.startswith(t0), 'training_history_grows', 'the earlier part changed')
        new = m.training_history[len(t0):].splitlines()
        eps = [re.match(r'Epoch +(\d+) completed in \S+ s with loss (\S+)', l) for l in new]
        eps = [(int(e.group(1)), e.group(2)) for e in eps if e]
        want = [(a, f'{b:.5e}') for a, b in lines[len(lines) - n:]] if n else []
        ctx.expect(eps == want, 'training_history', f'{eps} {want}')
        if ph['opt'] != 'LBFGS' and (stop is None or stop > 0):
            ctx.expect(any(f'Planning {ph["iterations"]} epochs of {ph["opt"]}' in l for l in new),
                       'training_history', f'{new[:1]}')
        ctx.sig(md.kind, ph['opt'], ph['iterations'], stop is None, ph['kw']['thread'])
    ctx.note('sequence')
    ctx.sample(kind=md.kind, last=ph)
    # in the results as well
    try:
        res = m.save_results(md.dataset) if md.kind not in ('toy', 'simple') else m.save_results()
    except TypeError:
        res = m.save_results()
    ctx.equal(np.asarray(res['loss_history'], np.float64), np.array(hist, np.float64), 'saved_history')
    ctx.expect(res['epoch'] == len(hist), 'saved_history', f'{res["epoch"]}')
    ctx.expect(res['training_history'] == m.training_history, 'saved_history', 'text')


def reference(ctx):
    """With steps of no length the loss is the one of the model as it is"""
    md = vm.make(ctx)
    vm.avoid_integers(ctx, md)
    m, s = md.model, md.spec
    if md.kind == 'simple':
        p = vm.pixel_positions(md)
        if (np.abs(np.abs(p - np.floor(p)) - 0.5) < 2e-3).any():
            raise Skip()
    n = len(md.dataset)
    loss = md.cfg.get('loss', 'amplitude mse')
    mask = tonp(m.mask) if getattr(m, 'mask', None) is not None else None
    I = rm.forward(md, np.arange(n))
    state = None
    for k in range(ctx.integer(1, 3)):
        ph = tr.phase(ctx, md, opts=('Adam', 'SGD'), max_it=2, schedule=False)
        ph['kw']['lr'] = 0.0
        # the regularizer changes the gradients, not what is reported
        sel = tr.selection(ph, md)
        pats = s.patterns[sel]
        if state is None:
            state = ref.normalization(loss, pats, mask)
        raw = ref.loss_value(loss, pats, I[sel], mask)
        want = (raw - state[0]) / state[1]
        g, _ = tr.start(md, ph)
        got = np.array([float(v) for v in g])
        scale = (abs(raw) + abs(state[0]) + (pats * np.log(pats + 1)).sum() * (loss == 'poisson nll')) / state[1]
        ctx.close(got, np.full(ph['iterations'], want), f'reported_loss:{loss}', rtol=3e-4, scale=scale, msg=f'{md.kind} {ph}')
    ctx.note('reference_loss')
    ctx.note(loss)
    ctx.note('masked', int(mask is not None and not mask.all()))
    ctx.sig('ref', md.kind, loss, ph['opt'], mask is None or mask.all())


def diverged(ctx):
    """Epochs which fail are reported as such, and those which succeed afterwards as well"""
    md = vm.make(ctx)
    m = md.model
    hist = []
    for k in range(ctx.integer(2, 4)):
        bad = ctx.flip()
        keep = {n: v.detach().clone() for n, v in m.state_dict().items()}
        if bad:
            m.obj.data[:] = ctx.choice([np.nan, np.inf])
        ph = tr.phase(ctx, md, opts=('Adam', 'SGD'), max_it=2, schedule=False)
        ph['kw']['lr'] = 0.0
        g, _ = tr.start(md, ph)
        while True:
            try:
                v = next(g, None)
            except RuntimeError:
                # positions which are not numbers cannot be computed
                if not bad:
                    raise
                break
            if v is None:
                break
            hist.append(float(v))
            books(ctx, m, hist, msg=f'{bad} {ph}')
            ctx.expect(np.isfinite(float(v)) != bad, 'failed_epoch_reported', f'{v} {hist} {md.kind} {ph}')
            want = f'{float(v):.5e}'
            ctx.expect(m.report().endswith('loss ' + want), 'failed_epoch_reported', f'{m.report()} {v}')
        ctx.note('diverged' if bad else 'recovered', ph['iterations'])
        with t.no_grad():
            for n, v in m.state_dict().items():
                v.copy_(keep[n])
        books(ctx, m, hist, msg=f'{bad} {ph}')
    ctx.sig('diverged', md.kind, ph['opt'], ph['kw']['thread'])


WORKLOADS = {'diverged': (diverged, 80, 1000), 'sequence': (sequence, 160, 2500), 'reference': (reference, 200, 3000)}
