"""P20: the detector model."""
import numpy as np, torch as t
from vf import gen, ref
from vf.core import tonp
from cdtools import tools

RULE = ('random wavefields through the measurement models with all combinations of oversampling, '
        'finite pixels, detector windows, quantum efficiency, background, saturation and epsilon, '
        'compared with float64 references and conservation laws; distinct by options and shapes')
ASSUMPTIONS = ['a detector window selects from the pooled pattern']
# Cases of the quick tier, relative to the numbers below
QUICK = 3
REQUIRE = {'one_slice': 20, 'coherent': 100, 'incoherent': 100, 'oversampled': 80, 'finite': 60, 'window': 60,
           'saturated': 60, 'qe': 60, 'background': 100}
M_ = tools.measurements


def cx(ctx, *shape):
    r = ctx.rng
    return (r.normal(size=shape) + 1j * r.normal(size=shape)).astype(np.complex64)


def options(ctx, sh, ov):
    kw = {}
    if ov != 1:
        kw['oversampling'] = ov
        ctx.note('oversampled')
    small = (sh[0] // ov, sh[1] // ov)
    sl = None
    if ctx.flip(0.3) and min(small) > 2:
        a, b = ctx.integer(0, small[0] - 2), ctx.integer(0, small[1] - 2)
        sl = np.s_[a:ctx.integer(a + 1, small[0]), b:ctx.integer(b + 1, small[1])]
        kw['detector_slice'] = sl
        ctx.note('window')
        if ctx.flip(0.2):
            kw['detector_slice'], sl = sl[0], (sl[0], np.s_[:])       # rows only
            ctx.note('one_slice')
    eps = 1e-7
    if ctx.flip(0.3):
        eps = ctx.uniform(0, 0.5)
        kw['epsilon'] = eps
    fin = ctx.flip(0.3)
    if fin:
        kw['simulate_finite_pixels'] = True
        ctx.note('finite')
    return kw, sl, eps, fin


def raw(x, modes, ov, sl, eps, fin):
    x = x.astype(complex)
    if fin:
        I = ref.finite_pixels(x, modes)
    else:
        I = np.abs(x) ** 2
        if modes:
            I = I.sum(-3)
    if ov != 1:
        I = ref.pool(I, ov)
    if sl is not None:
        I = I[(Ellipsis,) + sl]
    return I + eps


def plain(ctx):
    modes = ctx.flip()
    ov = ctx.choice([1, 1, 2, 3])
    sh = (ctx.integer(2, 14), ctx.integer(2, 14))
    if ov > 1:
        sh = tuple(ov * ctx.integer(1, 7) + (ctx.integer(0, ov - 1) if ctx.flip(0.2) else 0) for _ in sh)
    lead = ((ctx.integer(1, 3),) if modes else ()) if ctx.flip(0.3) else \
        ((ctx.integer(1, 3), ctx.integer(1, 3)) if modes else (ctx.integer(1, 3),))
    x = cx(ctx, *lead, *sh)
    kw, sl, eps, fin = options(ctx, sh, ov)
    fn = M_.incoherent_sum if modes else M_.intensity
    want = raw(x, modes, ov, sl, eps, fin)
    w = t.as_tensor(x)
    w0 = w.clone()
    sat = None
    if ctx.flip(0.3):
        sat = float(np.quantile(want, ctx.uniform(0, 1)))
        kw['saturation'] = sat
        want = np.clip(want, 0, sat)
        ctx.note('saturated')
    got = fn(w, **kw)
    ctx.close(got, want, 'incoherent_sum' if modes else 'intensity', rtol=2e-5, msg=f'{lead + sh} {kw}')
    ctx.close(fn(w.to(t.complex128), **kw), want, 'double_precision', rtol=2e-6, msg=f'{lead + sh} {kw}')
    ctx.equal(w, w0, 'inputs_unchanged')
    ctx.expect(not t.is_complex(got) and bool((got >= 0).all()), 'real_nonnegative', str(got.dtype))
    if not fin and sl is None and sat is None and ov == 1:
        ctx.close(got.sum(), (np.abs(x.astype(complex)) ** 2).sum() + eps * tonp(got).size, 'energy', rtol=2e-5)
    if fin and sl is None and sat is None and ov == 1:
        # never more than the total
        pass
    ctx.note('incoherent' if modes else 'coherent')
    ctx.sig(modes, lead, sh, ov, sl is not None, fin, sat is not None)
    ctx.sample(shape=lead + sh, options=kw)


def with_background(ctx):
    modes = ctx.flip(0.7)
    ov = ctx.choice([1, 1, 2, 3])
    sh = tuple(ov * ctx.integer(2, 7) for _ in range(2))
    lead = (ctx.integer(1, 3), ctx.integer(1, 3)) if modes else (ctx.integer(1, 3),)
    if ctx.flip(0.2):
        lead = lead[1:]
    x = cx(ctx, *lead, *sh)
    kw, sl, eps, fin = options(ctx, sh, ov)
    I = raw(x, modes, ov, sl, eps, fin)
    bsh = I.shape[-2:]
    bg = ctx.rng.normal(size=bsh).astype(np.float32) if ctx.flip(0.9) else np.float32(ctx.uniform(-1, 1))
    want = I
    if ctx.flip():
        qe = ctx.rng.uniform(0, 1, bsh).astype(np.float32)
        kw['qe_mask'] = t.as_tensor(qe)
        want = I * qe
        ctx.note('qe')
    want = want + np.asarray(bg, float) ** 2
    if ctx.flip(0.4):
        sat = float(np.quantile(want, ctx.uniform(0, 1)))
        kw['saturation'] = sat
        want = np.clip(want, 0, sat)
        ctx.note('saturated')
    if modes:
        kw['measurement'] = M_.incoherent_sum
    got = M_.quadratic_background(t.as_tensor(x), t.as_tensor(bg), **kw)
    ctx.close(got, want, 'quadratic_background', rtol=2e-5, msg=f'{lead + sh} {list(kw)}')
    ctx.note('background')
    ctx.sig('bg', modes, lead, sh, ov, sorted(kw))


def unitary_modes(ctx):
    """An incoherent sum does not depend on the basis or the order of its modes"""
    n = ctx.integer(2, 5)
    sh = (ctx.integer(2, 12), ctx.integer(2, 12))
    x = cx(ctx, ctx.integer(1, 3), n, *sh)
    q, _ = np.linalg.qr(cx(ctx, n, n))
    y = np.einsum('ij,bjkl->bikl', q, x)
    kw = {}
    if ctx.flip():
        kw['simulate_finite_pixels'] = True
    a, b = (M_.incoherent_sum(t.as_tensor(v.astype(np.complex64)), **kw) for v in (x, y))
    ctx.close(b, tonp(a), 'mode_basis', rtol=3e-5)
    ctx.sig('unitary', n, sh)


WORKLOADS = {'plain': (plain, 600, 10000), 'with_background': (with_background, 500, 8000),
             'unitary_modes': (unitary_modes, 100, 1500)}
