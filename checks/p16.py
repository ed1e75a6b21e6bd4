"""P16: masked and invalid pixels influence nothing."""
import copy
import numpy as np, torch as t
from cdtools import models
from cdtools.datasets import Ptycho2DDataset
from cdtools.tools import losses as L
from vf import gen, ref, train as tr, models as vm
from vf.core import tonp, Skip

RULE = ('pairs of datasets which differ only in masked pixels (random values, huge, negative, infinite, not a '
        'number), through model construction, losses, normalization, gradients and whole reconstructions, '
        'compared bit for bit; distinct by class, loss, kind of values and number of masked pixels')
ASSUMPTIONS = ['at the time a model is made, masked pixels have finite values (the constructor of the dataset '
               'takes care of those which are not numbers)', 'SimplePtycho documents no mask: only its first '
               'guess is checked', 'the spectral initialization of RPI is not used']
# Cases of the quick tier, relative to the numbers below
QUICK = 2
REQUIRE = {'losses': 120, 'training': 80, 'initial': 60, 'constructor': 60, 'nan': 60, 'inf': 30, 'negative': 30,
           'huge': 30, 'no_effect_gradient': 60, 'all_masked_row': 10, 'amplitude mse': 30, 'poisson nll': 30,
           'intensity mse': 30, 'threaded': 10}


def rubbish(ctx, n, finite=False):
    k = ctx.choice(['huge', 'negative', 'random'] + ([] if finite else ['nan', 'inf', 'mixed']))
    v = {'huge': lambda: ctx.rng.uniform(1e5, 1e7, n), 'negative': lambda: -ctx.rng.uniform(0, 1e3, n),
         'random': lambda: ctx.rng.uniform(0, 50, n), 'nan': lambda: np.full(n, np.nan),
         'inf': lambda: ctx.rng.choice([np.inf, -np.inf], n),
         'mixed': lambda: ctx.rng.choice([np.inf, np.nan, 0, -1, 1e30], n)}[k]()
    ctx.note(k if k != 'mixed' else 'nan')
    return v, k


def mask_of(ctx, shape):
    p = ctx.choice([0.02, 0.1, 0.4])
    m = ctx.rng.uniform(size=shape) > p
    if ctx.flip(0.25):
        if ctx.flip():
            m[ctx.integer(0, shape[0] - 1)] = False
        else:
            m[:, ctx.integer(0, shape[1] - 1)] = False
        ctx.note('all_masked_row')
    if m.all():
        m[ctx.integer(0, shape[0] - 1), ctx.integer(0, shape[1] - 1)] = False
    if m.sum() < 3:
        m[:, :] = True
        m[0, 0] = False
    return m


def spoil(ctx, patterns, mask, finite=False):
    out = patterns.clone()
    bad = ~t.as_tensor(mask)
    v, k = rubbish(ctx, int(bad.sum()) * len(out), finite)
    out[:, bad] = t.as_tensor(v.reshape(len(out), -1)).to(out.dtype)
    return out, k


def lossfn(ctx):
    """The loss functions and normalizers alone, with rubbish on both sides"""
    name = ctx.choice(vm.LOSSES)
    n, sh = ctx.integer(1, 5), (ctx.integer(2, 9), ctx.integer(2, 9))
    dt = ctx.choice([t.float32, t.float64])
    mask = mask_of(ctx, sh)
    M = t.as_tensor(mask)
    I = t.as_tensor(ctx.rng.uniform(0.1, 9, (n,) + sh), dtype=dt)
    S = t.as_tensor(ctx.rng.uniform(0.1, 9, (n,) + sh), dtype=dt)
    I2, _ = spoil(ctx, I, mask)
    S2, _ = spoil(ctx, S, mask)
    if name == 'poisson nll':
        fn = lambda i, s: L.poisson_nll(i, s, mask=M, subtract_min=sm)
        sm = ctx.flip(0.3)
        N = L.SimplePoissonNLLNormalizer
    else:
        f = L.amplitude_mse if name[0] == 'a' else L.intensity_mse
        us = ctx.flip()
        fn = lambda i, s: f(i, s, mask=M, use_sum=us)
        N = L.AmplitudeMSENormalizer if name[0] == 'a' else L.IntensityMSENormalizer
    out = []
    for i, s in ((I, S), (I2, S2), (I2, S)):
        s = s.clone().requires_grad_(True)
        l = fn(i, s)
        l.backward()
        nz = N()
        nz.accumulate(i, mask=M)
        v = nz.normalize_loss(l.detach())
        w = nz.normalize_loss(l.detach() * 2)
        out.append((float(l.detach()), tonp(s.grad).copy(), float(v), float(w)))
    for o in out[1:]:
        for k, what in ((0, 'loss'), (2, 'normalized'), (3, 'normalized')):
            ctx.expect(o[k] == out[0][k], f'{what}:{name}', f'{o[k]} instead of {out[0][k]}')
        ctx.equal(o[1][:, mask], out[0][1][:, mask], f'gradient:{name}')
        ctx.expect(not np.any(o[1][:, ~mask]), f'gradient:{name}', 'not zero at masked pixels')
    ctx.note('losses')
    ctx.note('no_effect_gradient')
    ctx.note(name)
    ctx.sig('loss', name, n, sh, int((~mask).sum()))


def with_mask(ctx, md):
    """Gives the dataset a mask and returns the spec values"""
    return tonp(md.dataset.mask)


def training(ctx):
    if ctx.flip(0.3):
        md = tr.make_any(ctx, toy=1.0, n=ctx.integer(1, 6))
        md.model.mask = t.as_tensor(mask_of(ctx, md.spec.shape))
        md.dataset.mask = md.model.mask.clone()
    else:
        kind = ctx.choice(['fancy', 'multislice', 'bragg', 'rpi'])
        md = vm.make(ctx, kind, dec=dict(mask=True))
    mask = tonp(md.model.mask).astype(bool)
    if mask.all():
        raise Skip()
    md2 = vm.Made(kind=md.kind, spec=md.spec, dataset=copy.deepcopy(md.dataset), model=copy.deepcopy(md.model), cfg=md.cfg)
    md2.dataset.patterns, what = spoil(ctx, md.dataset.patterns, mask)
    ph = tr.phase(ctx, md, max_it=3, subset=True)
    md2.model.load_state_dict(md.model.state_dict())
    for (_, p), (_, q) in zip(md.model.named_parameters(), md2.model.named_parameters()):
        q.requires_grad = p.requires_grad
    seed = ctx.integer(0, 99999)
    res = []
    for d in (md, md2):
        t.manual_seed(seed)
        try:
            l = [float(v) for v in tr.start(d, ph)[0]]
        except RuntimeError:
            if tr.finite(d.model):
                raise
            l = None
        res.append((l, tr.params(d.model), tr.strip(d.model.training_history)))
    (la, pa, ta), (lb, pb, tb) = res
    ok = (la is None) == (lb is None) and (la is None or np.array_equal(la, lb, equal_nan=True))
    ctx.expect(ok, 'reported_losses', f'{lb} instead of {la}; {md.kind} {what}')
    ctx.expect(not tr.same_params(pa, pb), 'trained_parameters', f'{tr.same_params(pa, pb)}; {md.kind} {what}')
    ctx.expect(ta == tb, 'text', '')
    ctx.note('training')
    ctx.note(md.cfg.get('loss', 'amplitude mse'))
    ctx.note('threaded', int(ph['kw']['thread']))
    ctx.sig('t', md.kind, md.cfg.get('loss'), what, ph['opt'], int((~mask).sum()))
    ctx.sample(kind=md.kind, values=what, masked=int((~mask).sum()))


def initial(ctx):
    """The first guess does not look at masked pixels"""
    kind = ctx.choice(['fancy', 'fancy', 'simple', 'multislice', 'bragg', 'rpi'])
    md = vm.make(ctx, kind, dec=dict(mask=True), randomize=False)
    mask = tonp(md.dataset.mask).astype(bool)
    if mask.all():
        raise Skip()
    ds2 = copy.deepcopy(md.dataset)
    ds2.patterns, what = spoil(ctx, md.dataset.patterns, mask, finite=True)
    made = []
    cls = type(md.model)
    cfg = dict(md.cfg)
    for d in (md.dataset, ds2):
        seed = 17
        np.random.seed(seed)
        t.manual_seed(seed)
        if kind == 'rpi':
            made.append(cls.from_dataset(d, t.as_tensor(md.spec.probe), **cfg))
        else:
            made.append(cls.from_dataset(d, **cfg))
    a, b = (tr.params(m) for m in made)
    ctx.expect(not tr.same_params(a, b), 'first_guess', f'{tr.same_params(a, b)}; {kind} {what}')
    for k in a:
        ctx.expect(a[k].dtype.kind not in 'fc' or np.isfinite(a[k]).all(), 'first_guess_finite', f'{k}')
    ctx.note('initial')
    ctx.sig('i', kind, what, int((~mask).sum()), str(sorted(cfg.items(), key=str))[:200])


def constructor(ctx):
    """Pixels which are not numbers are masked, in all exposures, and only these"""
    s = gen.make_spec(ctx.rng, n=ctx.integer(1, 6), shape=(ctx.integer(4, 9), ctx.integer(4, 9)))
    gen.decorate(ctx.rng, s, mask=ctx.flip())
    given = np.ones(s.shape, bool) if s.mask is None else np.array(s.mask, bool)
    pats = np.array(s.patterns, np.float32)
    nn = ctx.integer(0, 6)
    bad = np.zeros(s.shape, bool)
    for k in range(nn):
        i, a, b = ctx.integer(0, s.n - 1), ctx.integer(0, s.shape[0] - 1), ctx.integer(0, s.shape[1] - 1)
        pats[i, a, b] = np.nan
        bad[a, b] = True
    clean = pats.copy()
    clean[:, :, :][:, bad] = 0
    asT = ctx.flip()
    ds = Ptycho2DDataset(s.translations, t.as_tensor(pats.copy()) if asT else pats.copy(), wavelength=s.wavelength,
                         detector_geometry=dict(basis=s.basis, distance=s.distance, corner=None),
                         mask=None if s.mask is None else s.mask)
    got = tonp(ds.mask).astype(bool)
    ctx.expect(np.array_equal(got, given & ~bad), 'invalid_pixels_masked', f'{int((got != (given & ~bad)).sum())} pixels differ')
    ctx.expect(ds.mask.dtype == t.bool, 'invalid_pixels_masked', 'type')
    ctx.equal(tonp(ds.patterns)[:, got], pats[:, got], 'valid_pixels_kept')
    ctx.expect(not np.isnan(tonp(ds.patterns)).any(), 'invalid_pixels_masked', 'still present')
    m = models.SimplePtycho.from_dataset(ds)
    ctx.expect(tr.finite(m), 'first_guess_finite', 'SimplePtycho')
    ctx.note('constructor')
    ctx.sig('c', s.n, s.shape, nn, asT, s.mask is None)


WORKLOADS = {'losses': (lossfn, 200, 3000), 'training': (training, 160, 2500), 'initial': (initial, 120, 2000),
             'constructor': (constructor, 120, 1500)}
