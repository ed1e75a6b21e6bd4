"""P08: how a batch is divided into chunks changes neither loss nor gradient nor the result."""
import copy
import numpy as np, torch as t
from vf import gen, train as tr, models as vm
from vf.core import tonp, Skip

RULE = ('random models, batches and chunk widths; the gradients with which the optimizer steps are '
        'captured and compared with the sum of the gradients of single exposures, and whole '
        'reconstructions with different chunk widths with each other; distinct by class, loss and sizes')
ASSUMPTIONS = ['sums of gradients in different orders differ by rounding errors: the tolerance of the '
               'gradient follows from the size of what is summed, the one of the trajectories from '
               'independent runs with rounding errors added']
# Cases of the quick tier, relative to the numbers below
QUICK = 2
REQUIRE = {'selections': 120, 'one_exposure': 25, 'no_weights': 8, 'gradients': 150, 'several_chunks': 80, 'uneven_chunks': 40, 'regularized': 25,
           'Adam': 40, 'SGD': 40, 'LBFGS': 20, 'trajectories': 40, 'well_conditioned': 40}


def single(m, ds, b, masked=True):
    """Sum of the gradients of single exposures, and the sum of their magnitudes"""
    tot, mag, L, Lm = {}, {}, 0.0, 0.0
    mask = getattr(m, 'mask', None)
    for i in b:
        for p in m.parameters():
            p.grad = None
        ix = t.as_tensor([i])
        sim = m.forward(ix, ds.translations[ix])
        l = m.loss(ds.patterns[ix], sim, mask=mask) if hasattr(m, 'mask') else m.loss(ds.patterns[ix], sim)
        l.backward()
        L += float(l.detach())
        Lm += abs(float(l.detach()))
        for k, p in m.named_parameters():
            if p.grad is not None:
                g = tonp(p.grad).astype(np.complex128)
                tot[k] = tot.get(k, 0) + g
                mag[k] = np.maximum(mag.get(k, 0), np.abs(g))
    for p in m.parameters():
        p.grad = None
    return tot, mag, L, Lm


def gradients(ctx):
    md = tr.make_any(ctx, n=ctx.integer(2, 9), toy=0.35)
    if md.kind != 'toy':
        vm.avoid_integers(ctx, md)
    m, ds = md.model, md.dataset
    n = len(ds)
    ph = tr.phase(ctx, md, shuffle=ctx.flip(), max_it=1, schedule=False)
    ph['kw'].pop('line_search_fn', None)
    ph['kw']['lr'] = 0.0
    cw = ctx.integer(1, n)
    ph['kw']['calculation_width'] = cw
    if ph['opt'] != 'LBFGS':
        ph['kw']['batch_size'] = ctx.integer(max(1, n // 2), n + 1)
    if ph['route'] == 'model':
        ph['route'] = 'recon'
        ph.setdefault('shuffle', True)
    ref = copy.deepcopy(m)
    seen = []
    from cdtools import reconstructors
    a = dict(subset=ph['subset'])
    if ph.get('lr_factors'):
        a['lr_factors'] = ph['lr_factors']
    rec = getattr(reconstructors, ph['opt'] + 'Reconstructor')(m, ds, **a)
    step = rec.optimizer.step

    def hooked(closure=None):
        out = []

        def inner():
            v = closure()
            if not out:
                out.append(float(v))
                seen.append((float(v), {k: None if p.grad is None else tonp(p.grad).copy()
                                        for k, p in m.named_parameters()}))
            return v
        return step(inner)
    rec.optimizer.step = hooked
    with tr.Watch(m) as w:
        g, _ = tr.start(md, ph, recon=rec)
        list(g)
    b = tr.batches(ph, md)
    ctx.require(len(seen) == len(b), 'batches', f'{len(seen)} steps instead of {len(b)}')
    flat = [i for ix, _ in w.forward for i in ix]
    at = 0
    reg = ph['kw'].get('regularization_factor')
    for (v, gr), size in zip(seen, [len(x) for x in b]):
        mine = flat[at:at + size]
        at += size
        tot, mag, L, Lm = single(ref, ds, mine)
        noise = {}
        for q in range(2):
            near = copy.deepcopy(ref)
            with t.no_grad():
                for p in near.parameters():
                    p *= 1 + 3e-7 * t.as_tensor(ctx.rng.normal(size=tuple(p.shape)).astype(np.float32))
            for k, x in single(near, ds, mine)[0].items():
                noise[k] = max(noise.get(k, 0), float(np.abs(x - tot[k]).max()))
        if reg is not None:
            for p in ref.parameters():
                p.grad = None
            ref.regularizer(reg).backward()
            for k, p in ref.named_parameters():
                if p.grad is not None:
                    q = tonp(p.grad).astype(np.complex128)
                    tot[k] = tot.get(k, 0) + q
                    noise.setdefault(k, 0)
                    mag[k] = np.maximum(mag.get(k, 0), np.abs(q))
            ctx.note('regularized')
        ctx.close(v, L, 'loss_of_batch', rtol=1e-5, scale=Lm, msg=f'{md.kind} width {cw}')
        for k, x in tot.items():
            ctx.require(gr.get(k) is not None, 'gradient', f'{k} has none')
            # cancellation within one exposure: relative to the largest gradient
            tol = 2e-4 * mag[k].max() * max(1, size) ** 0.5 + 1e-12 + 10 * noise[k]
            ctx.close(gr[k], x, 'gradient_of_batch', rtol=0, atol=tol,
                      msg=f'{md.kind} {k} batch {mine} width {cw}')
        for k, x in gr.items():
            if k not in tot:
                ctx.expect(x is None or not np.any(x), 'gradient', f'{k} has one')
        ctx.note('several_chunks', int(size > cw))
        ctx.note('uneven_chunks', int(size > cw and size % cw != 0))
    ctx.note('gradients')
    ctx.note(ph['opt'])
    ctx.sig('g', md.kind, md.cfg.get('loss'), cw, [len(x) for x in b], ph['opt'])
    ctx.sample(kind=md.kind, batches=[len(x) for x in b], width=cw)


def trajectories(ctx):
    md = tr.make_any(ctx, n=ctx.integer(3, 9), toy=0.5)
    if md.kind != 'toy':
        vm.avoid_integers(ctx, md)
    ph = tr.phase(ctx, md, opts=('Adam', 'SGD'), shuffle=False, max_it=3, schedule=False, thread=False)
    ph['route'] = 'recon'
    start = copy.deepcopy(md.model)
    widths = sorted({1, ctx.integer(1, len(md.dataset)), 100})
    results = []
    runs = None
    for cw in widths:
        m = copy.deepcopy(start)
        ph2 = dict(ph, kw=dict(ph['kw'], calculation_width=cw))
        with tr.Watch(m) as w:
            g, _ = tr.start(md, ph2, model=m)
            md2 = vm.Made(kind=md.kind, spec=md.spec, dataset=md.dataset, model=m, cfg=md.cfg)
            losses = tr.collect(ctx, md2, g)
        if losses is None:
            return
        ctx.note('widest_chunk', max(len(ix) for ix, _ in w.forward))
        results.append((losses, tr.params(m)))
        if runs is None:
            runs = tr.reference_runs(ctx, md, [ph2], start, {}, [None])
            if runs is None:
                return
    # the first run against the others, with the sensitivity of the independent runs
    sens = [(np.array(results[0][0]), results[0][1], None, runs[0][3])] + \
        [(np.array(results[0][0]) + (r[0] - runs[0][0]),
          {k: results[0][1][k] + (r[1][k] - runs[0][1][k]) if r[1][k].dtype != bool else r[1][k] for k in r[1]}, None, r[3])
         for r in runs[1:]]
    for cw, (l, p) in zip(widths[1:], results[1:]):
        tr.judge(ctx, l, p, sens, 'width', f'{md.kind} widths {widths[0]} and {cw}, {ph}')
    ctx.note('trajectories')
    ctx.sig('t', md.kind, ph['opt'], widths, ph['iterations'])


def selections(ctx):
    """However the exposures are selected, what is predicted for one of them is the same"""
    md = vm.make(ctx, ctx.choice(['fancy', 'fancy', 'simple', 'multislice', 'bragg']), n=ctx.integer(2, 7))
    vm.avoid_integers(ctx, md)
    m, ds = md.model, md.dataset
    n = len(ds)
    if md.kind in ('fancy', 'multislice') and m.weights is not None and m.weights.dim() == 1 and ctx.flip(0.3):
        m.weights = None                          # as a model made without any has it
        ctx.note('no_weights')
    with t.no_grad():
        full = tonp(m.forward(*ds[list(range(n))][0])).astype(float)
        scale = np.abs(full).max() + 1e-30
        how = ctx.choice(['slice', 'int', 'tensor', 'zero_dim', 'list', 'mask', 'turned', 'steps'])
        k = ctx.integer(0, n - 1)
        idx = {'slice': slice(k, ctx.integer(k + 1, n)), 'int': k, 'tensor': t.as_tensor(ctx.rng.integers(0, n, 3)), 'zero_dim': t.tensor(k),
               'list': [k, 0], 'turned': t.arange(n - 1, -1, -1), 'steps': slice(k % 2, n, 2), 'mask': None}[how]
        if how == 'mask':
            idx = t.as_tensor(ctx.rng.random(n) < 0.5)
            idx[k] = True
        got = tonp(m.forward(*ds[idx][0])).astype(float)
        key = idx.numpy() if t.is_tensor(idx) else idx
        want = full[key]
        ctx.close(got.reshape(want.shape) if got.size == want.size else got, want, 'selection', rtol=0, atol=1e-5 * scale,
                  msg=f'{md.kind} {how} {sorted(md.cfg)}')
    ctx.note('selections')
    ctx.note('one_exposure', int(how in ('int', 'zero_dim')))
    ctx.sig('selections', md.kind, how, sorted(md.cfg))


WORKLOADS = {'selections': (selections, 250, 3000), 'gradients': (gradients, 300, 5000), 'trajectories': (trajectories, 120, 2000)}
