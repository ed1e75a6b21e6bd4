"""P14: a reconstruction in several jobs with checkpoints is the same as one in a single job."""
import copy, os
import numpy as np, torch as t
from vf import gen, train as tr, models as vm
from vf.core import tonp

RULE = ('random scripts of optimization calls with checkpoints at random epochs and between the calls, run '
        'once without interruption and once as a series of jobs which each start anew, stop at a '
        'checkpoint and continue from the file; states are compared bit for bit; distinct by script')
ASSUMPTIONS = ['the script seeds the random generator before every epoch, if it shuffles',
               'every epoch uses the same exposures, since the normalization of the reported losses is that of '
               'the first epoch of a job (reported losses are compared up to rounding)',
               'without a learning-rate schedule, whose state is not part of a checkpoint']
# Cases of the quick tier, relative to the numbers below
QUICK = 1.5
REQUIRE = {'scripts': 60, 'jobs': 150, 'mid_call': 60, 'between_calls': 20, 'before_start': 5, 'at_end': 10,
           'Adam': 40, 'SGD': 20, 'LBFGS': 15, 'momentum': 8, 'threaded': 20, 'inline': 40, 'shuffled': 20,
           'explicit_file': 30, 'two_checkpoints': 30, 'by_epoch_number': 20, 'skipped': 100}


def script(ctx, md):
    """[(phase, set of epochs after which a checkpoint follows, checkpoint after the call)]"""
    out = []
    for k in range(ctx.integer(1, 3)):
        ph = tr.phase(ctx, md, subset=False, schedule=False, max_it=4)
        if ph['opt'] == 'SGD':
            ph['kw']['lr'] *= 0.4
        cps = [e for e in range(ph['iterations']) if ctx.flip(0.35)]
        out.append((ph, cps, ctx.flip(0.25)))
    return out, ctx.flip(0.1), ctx.flip(0.4)


def execute(ctx, md, m, scr, job, stem, args, keep=None):
    """Runs as a user's script would. -> the state, and the number of the checkpoint at which it stopped"""
    phases, first, by_number = scr
    if job is not None:
        m.use_checkpoints(job, stem)
    n = 0
    epoch = 0

    def cp():
        nonlocal n
        n += 1
        if job is not None:
            m.checkpoint(*args)
    if first:
        cp()
    for ph, cps, after in phases:
        g, rec = tr.start(md, ph, model=m)
        e = 0
        start = epoch
        while True:
            t.manual_seed(1000 + epoch)
            skipped = m.skip_computation()
            past = [float(x) for x in m.loss_history]
            try:
                v = float(next(g))
            except StopIteration:
                break
            if skipped:
                # epochs of earlier jobs report the last loss there is
                ctx.expect(v == past[-1] if past else v != v, 'skipped_loss', f'{v} {past[-3:]}')
                ctx.expect([float(x) for x in m.loss_history] == past, 'skipped_history', f'{len(m.loss_history)} {len(past)}')
                ctx.note('skipped')
            else:
                ctx.expect(len(m.loss_history) == len(past) + 1 and (v == float(m.loss_history[-1]) or v != v), 'reported', f'{v}')
            # users decide with their own counter, or with the number of epochs of the model
            if (m.epoch - start if by_number else e + 1) in [c + 1 for c in cps]:
                cp()
            e += 1
            epoch += 1
        if after:
            cp()
    return n


def outcome(m):
    return dict(p=tr.params(m), h=[float(v) for v in m.loss_history], e=m.epoch, x=tr.strip(m.training_history))


def jobs(ctx):
    md = tr.make_any(ctx, toy=0.5, n=ctx.integer(1, 6), strided=False)
    ds = md.dataset
    args = () if md.kind == 'toy' or ctx.flip(0.4) else (ds,)
    scr = script(ctx, md)
    ctx.param(kind=md.kind, script=scr, args=len(args))
    req = {k: p.requires_grad for k, p in md.model.named_parameters()}
    base = copy.deepcopy(md.model)
    if ctx.flip(0.3):
        # a reconstruction which was started before
        base.loss_history = [float(x) for x in ctx.rng.uniform(1, 9, ctx.integer(1, 3))]
        if not scr[2]:
            base.epoch = len(base.loss_history)
        else:
            base.loss_history = []
    full = copy.deepcopy(base)
    try:
        n = execute(ctx, md, full, scr, None, None, args)
    except RuntimeError:
        if tr.finite(full):
            raise
        return
    if not tr.finite(full) or not np.isfinite(full.loss_history).all():
        ctx.note('diverged')
        return
    stem = os.path.join(ctx.dir, 'cp')
    for job in range(n + 1):
        m = copy.deepcopy(base)
        if job > 0 and ctx.flip(0.6):
            # everything comes from the file
            with t.no_grad():
                for p in m.parameters():
                    p.mul_(0.7)
        try:
            execute(ctx, md, m, scr, job, stem, args)
            stopped = False
        except SystemExit:
            stopped = True
        ctx.note('jobs')
        ctx.expect(stopped == (job < n), 'stops_at_checkpoint', f'job {job} of {n}: {"stopped" if stopped else "ran on"}')
        ctx.expect(tr.gone(), 'worker_left')
        if job < n:
            ctx.expect(os.path.exists(f'{stem}_{job}.pt'), 'checkpoint_file', f'{sorted(os.listdir(ctx.dir))}')
            if not os.path.exists(f'{stem}_{job}.pt'):
                return
    a, b = outcome(full), outcome(m)
    d = tr.same_params(a['p'], b['p'])
    ctx.expect(not d, 'resumed_parameters', f'{md.kind} {d}')
    ctx.expect(a['e'] == b['e'] and len(a['h']) == len(b['h']), 'resumed_epochs',
               f'{b["e"]} {len(b["h"])} instead of {a["e"]} {len(a["h"])}')
    if len(a['h']) == len(b['h']) and a['h']:
        from vf import ref
        mask = getattr(md.model, 'mask', None)
        off, div = ref.normalization(md.cfg.get('loss', 'amplitude mse'), tonp(ds.patterns),
                                     None if mask is None else tonp(mask))
        ctx.close(np.array(b['h']), np.array(a['h']), 'resumed_losses', rtol=1e-5, atol=2e-6 * abs(off) / div)
    import re
    lines = lambda x: [re.sub(r'loss \S+', '', l) for l in x.splitlines()]
    ctx.expect(lines(a['x']) == lines(b['x']), 'resumed_text', f'{lines(b["x"])[:6]} instead of {lines(a["x"])[:6]}')
    ctx.note('scripts')
    ctx.note('two_checkpoints', int(n >= 2))
    for ph, cps, after in scr[0]:
        ctx.note('mid_call', int(any(e < ph['iterations'] - 1 for e in cps)))
        ctx.note('at_end', int(ph['iterations'] - 1 in cps))
        ctx.note('between_calls', int(after))
        ctx.note(ph['opt'])
        ctx.note('momentum', int(ph['kw'].get('momentum', 0) > 0 and len(cps) > 0))
        ctx.note('threaded' if ph['kw']['thread'] else 'inline')
        ctx.note('shuffled', int(ph.get('shuffle', True) and ph['opt'] != 'LBFGS' and len(cps) > 0))
    ctx.note('before_start', int(scr[1]))
    ctx.note('by_epoch_number', int(scr[2] and n > 0))
    ctx.sig(md.kind, [(p['opt'], p['iterations'], tuple(c), a) for p, c, a in scr[0]])
    ctx.sample(kind=md.kind, script=[(p['opt'], p['iterations'], c, a) for p, c, a in scr[0]])


def explicit(ctx):
    """save_checkpoint and load_checkpoint by hand, in the middle of a call"""
    md = tr.make_any(ctx, toy=0.5, n=ctx.integer(1, 6), strided=False)
    ds, m = md.dataset, md.model
    args = () if md.kind == 'toy' or ctx.flip(0.4) else (ds,)
    ph = tr.phase(ctx, md, subset=False, schedule=False, shuffle=False)
    if ph['opt'] == 'LBFGS':
        ph = dict(ph, opt='Adam', kw=dict(thread=False, lr=1e-3, batch_size=2))
    ph['route'] = 'recon'
    ph['iterations'] = ctx.integer(2, 5)
    if ph['opt'] == 'SGD':
        ph['kw']['lr'] *= 0.4
    other = copy.deepcopy(m)
    cut = ctx.integer(1, ph['iterations'] - 1)
    fn = os.path.join(ctx.dir, 'c.pt')
    base = copy.deepcopy(m)
    g, rec = tr.start(md, ph)
    rest, after = [], []
    try:
        for k in range(ph['iterations']):
            if k == cut:
                m.save_checkpoint(*args, checkpoint_file=fn)
                at = outcome(m)
                opt = copy.deepcopy(rec.optimizer.state_dict())
            v = float(next(g))
            if k >= cut:
                rest.append(v)
    except RuntimeError:
        if tr.finite(m):
            raise
        return
    if not tr.finite(m):
        return
    # In another model, which is elsewhere by now
    ph2 = dict(ph, iterations=ph['iterations'] - cut + 1)
    g2, rec2 = tr.start(md, ph2, model=other)
    try:
        next(g2)
        other.load_checkpoint(checkpoint_file=fn)
    except RuntimeError:
        if tr.finite(other):
            raise
        return
    b = outcome(other)
    ctx.expect(not tr.same_params(at['p'], b['p']) and at['h'] == b['h'] and at['e'] == b['e'] and at['x'] == b['x'],
               'loaded_state', f'{tr.same_params(at["p"], b["p"])} {b["h"]} {at["h"]}')
    # also the state of the optimizer
    from checks.p09 import differ
    o2 = rec2.optimizer.state_dict()
    for k in opt['state']:
        for q, v in opt['state'][k].items():
            w = o2['state'].get(k, {}).get(q)
            same = np.array_equal(tonp(v), tonp(w), equal_nan=True) if t.is_tensor(v) and t.is_tensor(w) else v is w or v == w
            ctx.expect(same, 'loaded_optimizer', f'{q} of {k}')
    more = [float(v) for v in g2]
    ctx.expect(not tr.same_params(tr.params(m), tr.params(other)), 'resumed_parameters',
               f'{md.kind} {ph["opt"]} {tr.same_params(tr.params(m), tr.params(other))}')
    ctx.expect(len(more) == len(rest), 'resumed_epochs', '')
    # a loaded checkpoint is a copy
    third = copy.deepcopy(base)
    third.load_checkpoint(checkpoint_file=fn)
    ctx.expect(not tr.same_params(at['p'], tr.params(third)), 'loaded_state', 'second time')
    ctx.note('explicit_file')
    ctx.sig('e', md.kind, ph['opt'], cut, ph['iterations'])


WORKLOADS = {'jobs': (jobs, 130, 2200), 'explicit': (explicit, 70, 1000)}
