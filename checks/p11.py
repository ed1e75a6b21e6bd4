"""P11: every epoch uses each selected pattern exactly once, with its own position."""
import numpy as np, torch as t
from torch.utils import data as td
from vf import gen, train as tr
from vf.core import tonp

RULE = ('optimization calls with random batch sizes, subsets (any order, single numbers, repeated '
        'entries), shuffling, chunk widths, data loaders and entry points; a monitor on the '
        'predictions and the losses records which exposures and patterns are used; distinct by '
        'optimizer, sizes and options')
ASSUMPTIONS = []
# Cases of the quick tier, relative to the numbers below
QUICK = 2
REQUIRE = {'Adam': 80, 'SGD': 60, 'LBFGS': 40, 'subset': 60, 'shuffled': 60, 'in_order': 60,
           'custom_loader': 20, 'threaded': 40, 'last_batch_smaller': 40, 'several_chunks': 60,
           'reshuffled': 30}


class Steps:
    """Counts the evaluations of the closure and the steps of the optimizer"""
    def __init__(self, optimizer):
        self.n = 0
        self.h = optimizer.register_step_post_hook(self.tick)

    def tick(self, *a):
        self.n += 1


def tag(md, ctx):
    """Patterns which can be recognized"""
    ds = md.dataset
    n = len(ds)
    ds.patterns = ds.patterns + t.arange(n, dtype=ds.patterns.dtype)[:, None, None] * 0.37
    return tonp(ds.patterns).copy(), tonp(ds.translations).copy()


def run(ctx):
    toy = ctx.flip(0.75)
    md = tr.make_any(ctx, toy=1.0 if toy else 0.0, n=ctx.integer(1, 14) if toy else ctx.integer(1, 6))
    D, T = tag(md, ctx)
    ph = tr.phase(ctx, md, shuffle=ctx.choice([None, True, False, False]), reg=False,
                  schedule=False, max_it=3)
    ph['kw'].pop('line_search_fn', None)
    ph['kw']['lr'] = ph['kw']['lr'] * (0.0 if ph['opt'] != 'LBFGS' else 1e-3)
    if ph['subset'] is not None and not isinstance(ph['subset'], int) and ctx.flip(0.2):
        ph['subset'] = ph['subset'] + [ph['subset'][0]]
    sel = tr.selection(ph, md)
    custom = ph['opt'] == 'Adam' and ph['route'] == 'recon' and ctx.flip(0.25)
    bs = ph['kw'].get('batch_size', 15) or 1
    if ph['opt'] == 'LBFGS':
        bs = len(sel)
    shuffle = ph.get('shuffle', True) if ph['opt'] != 'LBFGS' else True
    from cdtools import reconstructors
    order = None
    if custom:
        ph['subset'] = None
        order = [int(v) for v in ctx.rng.permutation(len(D))[:ctx.integer(1, len(D))]]
        bs = ctx.integer(1, 5)
        loader = td.DataLoader(td.Subset(md.dataset, order), batch_size=bs, shuffle=False)
        ph['kw']['custom_data_loader'] = loader
        sel, shuffle = order, False
        ctx.note('custom_loader')
    ctx.param(phase=ph, kind=md.kind, n=len(D), selection=sel)
    e0 = len(md.model.loss_history)
    made = []
    if ph['route'] == 'model':
        old = md.model.loss
    with tr.Watch(md.model) as w:
        g, rec = tr.start(md, ph)
        steps = Steps(rec.optimizer) if rec is not None else None
        got = []
        per_epoch = []
        last = 0
        for v in g:
            got.append(float(v))
            if steps is not None:
                per_epoch.append(steps.n - last)
                last = steps.n
    its = ph['iterations']
    ctx.require(len(got) == its, 'number_of_epochs', f'{len(got)} instead of {its}')
    cw = ph['kw'].get('calculation_width', 10)
    orders = []
    for e in range(its):
        f = [(ix, x, p) for (ix, x), p, ep in zip(w.forward, w.losses, w.epochs) if ep == e0 + e]
        flat = [i for ix, _, _ in f for i in ix]
        # L-BFGS evaluates everything repeatedly
        rep = len(flat) // max(1, len(sel))
        if ph['opt'] != 'LBFGS':
            ctx.expect(sorted(flat) == sorted(sel), 'each_exactly_once',
                       f'{flat} instead of {sel}, epoch {e}, {ph}')
        else:
            ok = rep >= 1 and len(flat) == rep * len(sel) and \
                all(sorted(flat[k * len(sel):(k + 1) * len(sel)]) == sorted(sel) for k in range(rep))
            ctx.expect(ok, 'each_exactly_once', f'{flat} instead of repetitions of {sel}')
        orders.append(flat[:len(sel)])
        if not shuffle:
            ctx.expect(flat[:len(sel)] == sel, 'order_kept', f'{flat} instead of {sel}')
        for ix, x, p in f:
            ctx.expect(len(ix) <= cw, 'chunk_width', f'{len(ix)} > {cw}')
            ctx.expect(np.array_equal(p, D[ix]), 'pattern_of_its_exposure', f'{ix}')
            ctx.expect(np.array_equal(x, T[ix]), 'position_of_its_exposure', f'{ix}')
        # the sizes of the chunks follow from the batches
        want = [min(cw, b - k) for b in [min(bs, len(sel) - q) for q in range(0, len(sel), bs)]
                for k in range(0, b, cw)]
        sizes = [len(ix) for ix, _, _ in f]
        if ph['opt'] != 'LBFGS':
            ctx.expect(sizes == want, 'batches', f'{sizes} instead of {want}')
        if steps is not None:
            nb = -(-len(sel) // bs)
            ctx.expect(per_epoch[e] == nb, 'steps_per_epoch', f'{per_epoch[e]} instead of {nb}')
    if shuffle and len(sel) >= 6 and its >= 2 and len(set(sel)) == len(sel):
        ctx.note('reshuffled', int(len(set(map(tuple, orders))) > 1))
        ctx.note('same_order_twice', int(len(set(map(tuple, orders))) == 1))
    ctx.note('shuffled' if orders[0] != sel else 'in_order')
    ctx.note(ph['opt'])
    ctx.note('subset', int(ph['subset'] is not None))
    ctx.note('threaded', int(ph['kw']['thread']))
    ctx.note('last_batch_smaller', int(len(sel) % bs != 0 and len(sel) > bs))
    ctx.note('several_chunks', int(bs > cw))
    ctx.note('epochs', its)
    ctx.sig(md.kind, ph['opt'], len(sel), bs, cw, shuffle, custom)
    ctx.sample(kind=md.kind, phase={k: str(v) for k, v in ph.items()}, selection=sel)


def shuffling(ctx):
    """Shuffled epochs use different orders, which depend on the seed of torch"""
    md = tr.make_any(ctx, toy=1.0, n=12)
    opt = ctx.choice(['Adam', 'SGD'])
    ph = dict(opt=opt, iterations=4, subset=None, kw=dict(lr=0.0, batch_size=ctx.integer(1, 12), thread=ctx.flip()),
              route=ctx.choice(['model', 'recon']))
    seen = []
    for seed in (3, 3, 4):
        t.manual_seed(seed)
        e0 = len(md.model.loss_history)
        with tr.Watch(md.model) as w:
            g, _ = tr.start(md, ph)
            list(g)
        seen.append([tuple(w.order(e0 + e, 12)) for e in range(4)])
    ctx.expect(len(set(seen[0])) > 1, 'different_every_epoch', f'{seen[0]}')
    ctx.expect(seen[0] == seen[1], 'reproducible', 'the same seed gives another order')
    ctx.expect(seen[0] != seen[2], 'depends_on_seed', 'another seed gives the same order')
    ctx.note('shuffling')
    ctx.sig('shuffling', opt, ph['kw']['batch_size'], ph['route'])


WORKLOADS = {'run': (run, 500, 8000), 'shuffling': (shuffling, 30, 300)}
