"""P13: an optimization call performs exactly the documented algorithm."""
import copy
import numpy as np, torch as t
from vf import gen, train as tr
from vf.core import tonp, Skip

RULE = ('random sequences of optimization calls (Adam, SGD, L-BFGS with random settings, learning '
        'rate factors, schedules, subsets, regularizers) on models of all classes and a user '
        'defined model, compared with the same algorithm written down with torch.optim; distinct by '
        'class, optimizer and settings')
ASSUMPTIONS = ['the order of the exposures is the one which was observed', 'one fresh reconstructor per phase, or one '
               'reconstructor kept over phases of the same kind', 'a common loss normalization, fixed by '
               'the first epoch of the model']
REQUIRE = {'by_hand': 25, 'no_loader': 30, 'resettled': 50, 'factors_kept': 9, 'factors_replaced': 15, 'Adam': 40, 'SGD': 30, 'LBFGS': 25, 'regularized': 12, 'lr_factors': 15, 'scheduled': 5,
           'threaded': 20, 'kept_reconstructor': 10, 'default_settings': 8, 'defaulted': 30, 'modes_regularized': 1, 'strong_wolfe': 5, 'momentum': 8, 'subset': 20, 'shuffled': 30, 'rate_reduced': 8}


def notes(ctx, ph):
    ctx.note(ph['opt'])
    kw = ph['kw']
    ctx.note('regularized', int('regularization_factor' in kw))
    ctx.note('lr_factors', int(bool(ph.get('lr_factors'))))
    ctx.note('scheduled', int(bool(kw.get('schedule'))))
    ctx.note('threaded', int(kw['thread']))
    ctx.note('strong_wolfe', int('line_search_fn' in kw))
    ctx.note('momentum', int('momentum' in kw))
    ctx.note('subset', int(ph['subset'] is not None))


def trajectory(ctx):
    md = tr.make_any(ctx, kinds=['rpi']) if ctx.flip(0.12) else tr.make_any(ctx)
    if md.model is None:
        raise Skip()
    if ctx.flip(0.2):
        # a parameter which is not optimized stays as it is
        names = [k for k, p in md.model.named_parameters() if p.requires_grad and
                 k not in ('field', 'obj')]
        if len(names) > 1:
            getattr(md.model, ctx.choice(names)).requires_grad = False
    phases = [tr.phase(ctx, md, shuffle=ctx.choice([None, None, True, False]), defaults=True) for _ in range(ctx.integer(1, 2))]
    other = copy.deepcopy(md.model)
    state = {}
    for ph in phases:
        n = tr.size(ph, md)
        ctx.param(phase=ph, kind=md.kind)
        e0 = len(md.model.loss_history)
        with tr.Watch(md.model) as w:
            g, _ = tr.start(md, ph)
            got = tr.collect(ctx, md, g)
        if got is None:
            return
        orders = [w.order(e0 + e, n) for e in range(ph['iterations'])]
        sel = tr.selection(ph, md)
        for o in orders:
            ctx.require(sorted(o) == sorted(sel), 'selected_exposures', f'{o} {sel} {ph}')
        runs = tr.reference_runs(ctx, md, [ph], other, state, [orders])
        notes(ctx, ph)
        ctx.note('defaulted', len(ph['omit']))
        ctx.note('modes_regularized', int('regularization_factor' in ph['kw'] and md.kind == 'rpi' and len(md.model.obj) > 1))
        ctx.note('shuffled', int(orders != [sel] * len(orders)))
        ctx.sig(md.kind, ph['opt'], sorted(ph['kw']), ph['route'], ph['subset'] is not None)
        ctx.sample(kind=md.kind, phase=ph)
        if runs is None:
            return
        tr.judge(ctx, got, tr.params(md.model), runs, ph['opt'], f'{md.kind} {ph}')
        # continue from the same parameters
        other, state = runs[0][2], runs[0][3]
        other.load_state_dict(md.model.state_dict())
    ctx.note('trajectories')


def kept(ctx):
    """A reconstructor keeps the state of its optimizer over several calls"""
    md = tr.make_any(ctx)
    other = copy.deepcopy(md.model)
    ph = tr.phase(ctx, md, opts=('Adam', 'SGD'), shuffle=False, schedule=False)
    ph['route'] = 'recon'
    if ph['opt'] == 'SGD':
        ph['kw']['momentum'] = 0.7
        ph['kw'].pop('nesterov', None)
    total = ctx.integer(2, 5)
    first = ctx.integer(1, total - 1)
    ph1, ph2, ph3 = (dict(ph, iterations=k) for k in (first, total - first, total))
    g, rec = tr.start(md, ph1)
    got = [float(v) for v in g]
    if ctx.flip():
        # what users do in between
        md.model.save_results() if md.kind != 'x' else None
        md.model.report()
    g, _ = tr.start(md, ph2, recon=rec)
    got += [float(v) for v in g]
    runs = tr.reference_runs(ctx, md, [ph3], other, {}, [None])
    if runs is None:
        return
    ctx.param(phase=ph, kind=md.kind)
    tr.judge(ctx, got, tr.params(md.model), runs, 'kept', f'{md.kind} {ph}')
    ctx.note('kept_reconstructor')
    ctx.sig('kept', md.kind, ph['opt'], sorted(ph['kw']))
    if ctx.flip(0.3):
        # settings which are not given go back to the documented ones
        rec.adjust_optimizer(lr_factors={})
        keys = dict(betas=(0.9, 0.999), amsgrad=False) if ph['opt'] == 'Adam' else \
            dict(momentum=0, dampening=0, weight_decay=0, nesterov=False)
        for pg in rec.optimizer.param_groups:
            for k, v in dict(keys, lr=0.005).items():
                ctx.expect(pg[k] == v, 'default_settings', lambda: f'{k} {pg[k]}')
        ctx.note('default_settings')
    # other learning rates for the next call
    if ph['opt'] == 'Adam' and ctx.flip():
        lf = {k: ctx.choice([0.0, 0.3]) for k, _ in md.model.named_parameters() if ctx.flip()}
        before = tr.params(md.model)
        lr = 1e-3
        list(rec.optimize(1, lr=lr, lr_factors=lf, batch_size=3, thread=False))
        after = tr.params(md.model)
        for k, f in lf.items():
            if f == 0:
                ctx.equal(after[k], before[k], 'zero_rate_keeps_parameter', k)
            else:
                # Adam never moves further than lr (1-b1)/sqrt(1-b2) per step
                nb = -(-tr.size(ph, md) // 3)
                ctx.expect(np.abs(after[k] - before[k]).max() <= lr * f * 12 * nb, 'rate_bounds_step', k)


def resettled(ctx):
    """A reconstructor which is used again with other settings"""
    md = tr.make_any(ctx)
    other = copy.deepcopy(md.model)
    ph = tr.phase(ctx, md, shuffle=False, schedule=False)
    ph['route'] = 'recon'
    phases = [ph]
    for _ in range(ctx.integer(1, 2)):
        nx = tr.phase(ctx, md, opts=(ph['opt'],), shuffle=False, subset=False)
        nx.update(subset=ph['subset'], route='recon')
        for k in ('amsgrad', 'history_size'):
            # torch itself does not allow to change these
            nx['kw'].pop(k, None)
            if k in ph['kw']:
                nx['kw'][k] = ph['kw'][k]
        if not ctx.flip(0.4) or ph['opt'] == 'LBFGS':
            # those of the last call stay
            nx.pop('lr_factors', None)
            if phases[-1].get('lr_factors') is not None:
                nx['lr_factors'] = phases[-1]['lr_factors']
        else:
            nx.setdefault('lr_factors', {})
            nx['given'] = True
        phases.append(nx)
    if ph['opt'] == 'LBFGS' and len({p['kw'].get('line_search_fn') for p in phases}) > 1:
        for p in phases:
            p['kw'].pop('line_search_fn', None)
    if getattr(md.model, 'translation_offsets', None) is not None:
        # momentum would carry the windows off the object
        md.model.translation_offsets.requires_grad = False
        other.translation_offsets.requires_grad = False
    got, rec = [], None
    for k, p in enumerate(phases):
        if ph['opt'] == 'LBFGS':
            p['iterations'] = min(p['iterations'], 2)
        q = dict(p, kw=dict(p['kw']))
        if p.get('given'):
            q['kw']['lr_factors'] = p['lr_factors']
        g, r = tr.start(md, q, recon=rec)
        part = tr.collect(ctx, md, g)
        if part is None:
            return
        got += list(part)
        rec = rec or r
    runs = tr.reference_runs(ctx, md, phases, other, {}, [None] * len(phases), keep=True)
    if runs is None:
        return
    ctx.param(phases=phases, kind=md.kind)
    tr.judge(ctx, got, tr.params(md.model), runs, 'resettled', f'{md.kind} {phases}')
    ctx.note('resettled')
    ctx.note('factors_kept', int(any(p.get('lr_factors') and not p.get('given') for p in phases[1:])))
    ctx.note('factors_replaced', int(any(p.get('given') for p in phases)))
    ctx.sig('resettled', md.kind, ph['opt'], [sorted(p['kw']) for p in phases])


def plateau(ctx):
    """Long enough, with steps large enough, for the learning rate to be reduced on plateaus"""
    md = tr.make_any(ctx, toy=1.0, n=ctx.integer(2, 4))
    ph = tr.phase(ctx, md, opts=('Adam',), shuffle=ctx.flip())
    ph['iterations'] = ctx.integer(25, 40)
    ph['kw'].update(schedule=ctx.flip(0.8), lr=ctx.uniform(0.3, 2))
    ph['route'] = 'recon'
    other = copy.deepcopy(md.model)
    n = tr.size(ph, md)
    with tr.Watch(md.model) as w:
        g, rec = tr.start(md, ph)
        got = [float(v) for v in g]
    runs = tr.reference_runs(ctx, md, [ph], other, {}, [[w.order(e, n) for e in range(ph['iterations'])]])
    if runs is None:
        return
    ctx.param(phase=ph)
    tr.judge(ctx, got, tr.params(md.model), runs, 'plateau', str(ph))
    ctx.note('plateau')
    ctx.note('rate_reduced', int(any(0 < g['lr'] < ph['kw']['lr'] * (ph.get('lr_factors') or {}).get(g['name'], 1) * 0.5
                                     for g in rec.optimizer.param_groups)))
    ctx.sig('plateau', ctx.index)


def by_hand(ctx):
    """The steps of which an optimization call consists, called one by one"""
    from cdtools import reconstructors
    md = tr.make_any(ctx, toy=0.6, n=ctx.integer(2, 7), strided=False)
    ph = tr.phase(ctx, md, thread=False, schedule=False)
    ph['route'] = 'recon'
    ctx.param(kind=md.kind, phase=ph)
    kw = ph['kw']
    R = getattr(reconstructors, ph['opt'] + 'Reconstructor')
    m = copy.deepcopy(md.model)
    kinds = dict(Adam=('lr', 'betas', 'amsgrad'), SGD=('lr', 'momentum', 'dampening', 'weight_decay', 'nesterov'),
                 LBFGS=('lr', 'history_size', 'line_search_fn'))[ph['opt']]
    rec = R(m, md.dataset, **{k: ph[k] for k in ('subset', 'lr_factors') if ph.get(k) is not None})
    try:
        rec.run_epoch()
    except RuntimeError:
        ctx.note('no_loader')
    else:
        ctx.expect(False, 'no_loader', 'an epoch ran without data')
    ctx.expect(m.loss_history == [] and m.epoch == 0 or len(m.loss_history) == len(md.model.loss_history), 'no_loader', f'{m.loss_history}')
    seed = ctx.integer(0, 10 ** 6)
    t.manual_seed(seed)
    want = []
    try:
        g, other = tr.start(md, ph)
        want = [float(v) for v in g]
    except RuntimeError:
        if tr.finite(md.model):
            raise
        return
    t.manual_seed(seed)
    rec.adjust_optimizer(**{k: kw[k] for k in kinds if k in kw})
    n = tr.size(ph, md)
    b = n if ph['opt'] == 'LBFGS' else kw['batch_size'] if 'batch_size' in kw else 15
    rec.setup_dataloader(**(dict(batch_size=b) if b is not None else {}), **({'shuffle': ph['shuffle']} if 'shuffle' in ph and ph['opt'] != 'LBFGS' else {}))
    got = []
    for k in range(ph['iterations']):
        got.append(float(rec.run_epoch(**{k: kw[k] for k in ('regularization_factor', 'calculation_width') if k in kw})))
    ctx.expect(np.array_equal(got, want, equal_nan=True), 'by_hand_losses', lambda: f'{got} instead of {want}')
    d = tr.same_params(tr.params(m), tr.params(md.model))
    ctx.expect(not d, 'by_hand_parameters', lambda: f'{d}')
    ctx.expect(np.array_equal(np.array(m.loss_history, dtype=float), np.array(md.model.loss_history, dtype=float), equal_nan=True) and m.epoch == md.model.epoch,
               'by_hand_records', lambda: f'{m.loss_history} {md.model.loss_history}')
    ctx.note('by_hand')
    ctx.note('by_hand_no_batch_size', int(b is None))
    ctx.sig('h', md.kind, ph['opt'], b, ph['iterations'])


WORKLOADS = {'by_hand': (by_hand, 60, 600), 'resettled': (resettled, 120, 1600), 'trajectory': (trajectory, 260, 4000), 'kept': (kept, 80, 1200), 'plateau': (plateau, 40, 400)}
