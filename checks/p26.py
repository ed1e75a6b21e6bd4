"""P26: loss functions and the gradients of every parameter are exact."""
import numpy as np, torch as t
from vf import gen, ref, models as vm, refmodel as rm
from vf.core import tonp, Skip
from cdtools import tools

RULE = ('random patterns, predictions and masks through every loss and normalizer, compared with '
        'float64 formulas; and for models of all classes, the derivative of the loss along random '
        'directions of every parameter, obtained by automatic differentiation, compared with the '
        'finite difference of the float64 reference; distinct by class, options, parameter')
ASSUMPTIONS = ['positions stay away from whole pixels', 'tolerance 0.5 percent of the length of the '
               'gradient times the length of the direction for gradients (single precision, and a '
               'generic direction)', 'the slice of a detector is not used']
# Cases of the quick tier, relative to the numbers below
QUICK = 2
REQUIRE = {'losses': 200, 'normalizers': 60, 'grad:fancy': 100, 'grad:simple': 8, 'grad:multislice': 40,
           'grad:bragg': 40, 'grad:rpi': 40, 'param:probe': 80, 'param:obj': 80,
           'param:translation_offsets': 40, 'param:weights': 40, 'param:background': 60,
           'param:probe_fourier_shifts': 8, 'param:qe_mask': 4}
L_ = tools.losses
TRAINABLE = ['probe', 'obj', 'weights', 'background', 'translation_offsets', 'probe_fourier_shifts',
             'qe_mask']


def losses(ctx):
    r = ctx.rng
    sh = tuple(ctx.integer(1, 9) for _ in range(ctx.integer(2, 3)))
    counts = ctx.flip(0.7)
    pat = (r.poisson(ctx.choice([0.3, 5, 1000]), sh) if counts else r.uniform(0, 10, sh)).astype(np.float32)
    sim = (r.uniform(1e-3, 1, sh) * ctx.choice([1, 10, 1000])).astype(np.float32)
    mask = None
    if ctx.flip():
        mask = r.random(sh[-2:] if ctx.flip() else sh) > 0.3
        if not np.broadcast_to(mask, sh).any():
            mask[...] = True
        if ctx.flip(0.5):
            # whatever is masked does not matter
            bad = ~np.broadcast_to(mask, sh)
            pat[bad] = np.nan
            if ctx.flip():
                sim[bad] = np.nan
    tm = None if mask is None else t.as_tensor(mask)
    P, S = t.as_tensor(pat), t.as_tensor(sim).requires_grad_(True)
    use = np.ones(sh, bool) if mask is None else np.broadcast_to(mask, sh)
    p, s = pat[use].astype(float), sim[use].astype(float)
    name = ctx.choice(vm.LOSSES)
    if name == 'poisson nll':
        kw = {}
        eps = 1e-6
        if ctx.flip(0.3):
            eps = kw['eps'] = ctx.uniform(1e-4, 0.5)
        sub = ctx.flip(0.4)
        if sub:
            kw['subtract_min'] = True
        got = L_.poisson_nll(P, S, mask=tm, **kw)
        want = (s + eps - ref.xlogy(p, s + eps)).sum()
        if sub:
            want -= (p - ref.xlogy(p, p)).sum()
        g = 1 - p / (s + eps)
        scale = np.abs(s).sum() + np.abs(ref.xlogy(p, s + eps)).sum() + np.abs(ref.xlogy(p, p)).sum()
    else:
        us = ctx.flip()
        fn = L_.amplitude_mse if name == 'amplitude mse' else L_.intensity_mse
        got = fn(P, S, mask=tm, use_sum=us) if us or ctx.flip() else fn(P, S, mask=tm)
        want = ref.loss_value(name, p, s, reduce='sum' if us else 'mean')
        g = 1 - np.sqrt(p) / np.sqrt(s) if name == 'amplitude mse' else 2 * (s - p)
        if not us:
            g = g / p.size
        scale = ref.loss_value(name, p, 0 * s, reduce='sum' if us else 'mean') + want
    ctx.close(got, want, name, rtol=2e-5, scale=scale, msg=f'{sh} mask {mask is not None}')
    got.backward()
    w = np.zeros(sh)
    w[use] = g
    grad = tonp(S.grad)
    ctx.close(grad, w, name + ' gradient', rtol=2e-5)
    ctx.note('losses')
    ctx.sig(name, sh, mask is not None, counts)
    ctx.sample(loss=name, shape=sh)


def normalizers(ctx):
    r = ctx.rng
    name = ctx.choice(vm.LOSSES)
    cls = {'amplitude mse': L_.AmplitudeMSENormalizer, 'intensity mse': L_.IntensityMSENormalizer,
           'poisson nll': L_.SimplePoissonNLLNormalizer}[name]
    n = ctx.integer(1, 5)
    sh = (ctx.integer(2, 6), ctx.integer(2, 6))
    mask = r.random(sh) > 0.3 if ctx.flip() else None
    if mask is not None:
        mask[0, 0] = True
    pats = [r.poisson(8, (ctx.integer(1, 3),) + sh).astype(np.float32) for _ in range(n)]
    pats[0][0, 0, 0] = 3
    nz = cls()
    for p in pats:
        nz.accumulate(t.as_tensor(p), mask=None if mask is None else t.as_tensor(mask))
    allp = np.concatenate(pats)
    off, div = ref.normalization(name, allp, mask)
    for k in range(ctx.integer(1, 3)):
        v = ctx.uniform(0, 1e4)
        got = nz.normalize_loss(v)
        ctx.close(np.float64(got), (v - off) / div, 'normalizer', rtol=1e-4, scale=(abs(v) + abs(off)) / div,
                  msg=name)
        # later passes over the data do not change the normalization
        for p in pats:
            nz.accumulate(t.as_tensor(p), mask=None if mask is None else t.as_tensor(mask))
    ctx.note('normalizers')
    ctx.sig('norm', name, n, mask is not None)


def grad(ctx, kind, **kw):
    md = vm.make(ctx, kind, **kw)
    m, s = md.model, md.spec
    vm.avoid_integers(ctx, md, margin=5e-3)
    if kind == 'simple':
        p = vm.pixel_positions(md)
        if (np.abs(np.abs(p - np.floor(p)) - 0.5) < 2e-3).any():
            raise Skip()
    loss = md.cfg.get('loss', 'amplitude mse')
    if ctx.flip():
        idx = np.arange(len(md.dataset))
    else:
        idx = ctx.rng.permutation(len(md.dataset))[:ctx.integer(1, len(md.dataset))]
    (i, tr), pats = vm.inputs_of(md, idx)
    mask = tonp(md.dataset.mask)

    def floss():
        return ref.loss_value(loss, s.patterns[idx], rm.forward(md, idx), mask)

    for p in m.parameters():
        p.grad = None
    for name in TRAINABLE:
        if isinstance(getattr(m, name, None), t.nn.Parameter) and ctx.flip(0.8):
            getattr(m, name).requires_grad = True
    sim = m.forward(i, tr)
    got = m.loss(pats, sim, md.dataset.mask)
    rm.OVERRIDE.clear()
    base = floss()
    ctx.close(got, base, f'loss:{kind}', rtol=2e-3, msg=loss,
              scale=abs(base) + (s.patterns[idx].sum() if loss == 'poisson nll' else 0))
    got.backward()
    ctx.note(f'grad:{kind}')
    names = [n for n, p in m.named_parameters() if p.requires_grad and n in TRAINABLE]
    for name in names:
        p = getattr(m, name)
        if p.grad is None:
            ctx.note('unused')
        v = tonp(p)
        v = v.astype(np.complex128 if np.iscomplexobj(v) else np.float64)
        d = ctx.rng.normal(size=v.shape)
        if np.iscomplexobj(v):
            d = d + 1j * ctx.rng.normal(size=v.shape)
        size = np.abs(v).max() if np.abs(v).max() > 0 else 1.0
        if name == 'translation_offsets':
            size = 1.0 / float(m.translation_scale)
        if name == 'background':
            size = max(size, 0.1)
        d = d * size / np.abs(d).max()
        g = np.zeros_like(v) if p.grad is None else tonp(p.grad)
        a = float(np.sum((np.conj(g) * d).real))
        fd = []
        for h in (1e-5, 5e-6):
            sims = []
            for sgn in (1, -1):
                rm.OVERRIDE[name] = v + sgn * h * d
                sims.append(np.asarray(rm.forward(md, idx), float))
            vals = [ref.loss_value(loss, s.patterns[idx], x, mask) for x in sims]
            fd.append((vals[0] - vals[1]) / (2 * h))
        rm.OVERRIDE.clear()
        noise = abs(fd[0] - fd[1])
        if loss != 'intensity mse':
            # Single precision does not resolve the intensity of pixels which are almost dark, on
            # which the gradient depends
            I = (sims[0] + sims[1]) / 2 + 1e-6
            err = (np.abs(tonp(sim).astype(float) + 1e-6 - I) + 3e-7 * np.sqrt(I * I.max())) * np.abs(sims[0] - sims[1]) / (2 * h)
            pat = np.asarray(s.patterns[idx], float)
            err = err * (pat / I ** 2 if loss == 'poisson nll' else np.sqrt(pat) / (2 * I ** 1.5))
            noise += err[np.broadcast_to(True if mask is None else mask, err.shape)].sum()
        # A generic direction has |<g, d>| ~ |g| |d| / sqrt(size)
        ref_size = float(np.linalg.norm(g)) * float(np.linalg.norm(d)) / np.sqrt(d.size)
        scale = max(abs(fd[1]), ref_size) + abs(base) * 1e-4
        ctx.close(a, fd[1], f'gradient:{kind}:{name}', rtol=5e-3, atol=noise * 2, scale=scale,
                  msg=f'{loss} {md.cfg}')
        ctx.note('param:' + name)
        ctx.sig(kind, name, loss, md.cfg.get('oversampling'), md.cfg.get('near_field'),
                md.cfg.get('exponentiate_obj'), md.cfg.get('fourier_probe'))


def fancy(ctx):
    grad(ctx, 'fancy')


def simple(ctx):
    grad(ctx, 'simple')


def multislice(ctx):
    grad(ctx, 'multislice')


def bragg(ctx):
    grad(ctx, 'bragg')


def rpi(ctx):
    grad(ctx, 'rpi')


WORKLOADS = {'losses': (losses, 500, 8000), 'normalizers': (normalizers, 120, 2000),
             'fancy': (fancy, 250, 4000), 'simple': (simple, 20, 200), 'multislice': (multislice, 100, 1500),
             'bragg': (bragg, 100, 1500), 'rpi': (rpi, 100, 1500)}
