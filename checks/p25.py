"""P25: first guesses and the geometry of models follow from the data."""
import numpy as np, torch as t
from cdtools import models, tools
from vf import gen, ref, models as vm, refmodel
from vf.core import tonp, Skip

INI = tools.initializers
RULE = ('datasets of random geometry (tilted, skewed and reflecting detectors), shapes, masks, backgrounds and intensities, all '
        'initializers and from_dataset of all model classes with all options; distinct by function, shapes and options')
ASSUMPTIONS = ['single precision: first guesses are compared to 2e-4 of the brightest value',
               'gaussian beams are wide compared with the wavelength, as their formulas are paraxial',
               'illuminated cones are at least 5 mrad wide, single precision does not resolve smaller angles near the axis',
               'spectral guesses are defined up to a factor']
# Cases of the quick tier, relative to the numbers below
QUICK = 2
REQUIRE = {'stem_oversampled': 5, 'stem_larger': 5, 'stem_counts': 3, 'geometry': 150, 'object_setup': 200, 'edge_window': 60, 'gaussian': 150, 'gaussian_probe': 100, 'gaussian_propagated': 40,
           'sharp': 200, 'sharp_oversampled': 60, 'sharp_propagated': 60, 'sharp_near': 70, 'stem': 50, 'spectral': 20,
           'subdominant': 70, 'fancy': 150, 'simple': 30, 'multislice': 60, 'bragg': 60, 'rpi': 40, 'near_field': 25,
           'reflection': 25, 'cropped': 60, 'mean_pattern': 60, 'calibration': 120, 'calibration_real': 30, 'calibration_spectral': 15, 'all_windows': 250, 'object_view': 800}


def C(rng, *sh):
    return rng.normal(size=sh) + 1j * rng.normal(size=sh)


# --- tools -------------------------------------------------------------------------------------------------
def geometry(ctx):
    """One pixel of the exit wave and one of the detector give the phase 2 pi / N"""
    rng = ctx.rng
    sh = (ctx.integer(1, 3000), ctx.integer(1, 3000))
    lam, z = 10 ** rng.uniform(-11, -6), 10 ** rng.uniform(-2, 1)
    b = gen.det_basis(rng.uniform(5e-6, 9e-5), rng.uniform(5e-6, 9e-5), gen.rot(rng.normal(size=3), rng.uniform(0, 3)))
    skew = ctx.flip(0.3)
    if skew:
        b[:, 1] += rng.uniform(-0.7, 0.7) * b[:, 0]
    dt = ctx.choice([np.float32, np.float64])
    arg = b.astype(dt)
    arg = ctx.choice([arg, t.as_tensor(arg)])
    keep = tonp(arg).copy()
    shape = ctx.choice([t.Size(sh), sh, list(sh), np.array(sh)])
    kw = ctx.choice([{}, {}, dict(oversampling=ctx.integer(1, 3))])
    got = tonp(INI.exit_wave_geometry(arg, shape, lam, z, **kw)).astype(float)
    ctx.sig('geometry', skew, str(dt), type(arg).__name__, type(shape).__name__)
    ctx.expect(got.shape == (3, 2), 'exit_wave_basis_shape', str(got.shape))
    ctx.close(b.T @ got / (lam * z), np.diag(1 / np.array(sh)), 'exit_wave_phase', rtol=1e-4, msg=str(sh))
    n = np.cross(b[:, 0], b[:, 1])
    ctx.close((n / np.linalg.norm(n)) @ got / np.linalg.norm(got), np.zeros(2), 'exit_wave_plane', scale=1, rtol=1e-4)
    ctx.equal(tonp(arg), keep, 'inputs_unchanged')
    ctx.note('geometry')


def object_setup(ctx):
    rng = ctx.rng
    n = ctx.integer(1, 40)
    sh = (ctx.integer(1, 12), ctx.integer(1, 12))
    pos = (rng.uniform(-1, 1, (n, 2)) * 10 ** rng.uniform(-1, 1.6, 2) + rng.uniform(-100, 100, 2)).astype(np.float32)
    whole = ctx.flip(0.3)
    if whole:
        pos = np.round(pos)
    if ctx.flip(0.2):
        pos[:, ctx.integer(0, 1)] = pos[0, 0]
    pad = ctx.choice([0, 0, 0, 1, ctx.integer(2, 30)])
    kw = {} if pad == 0 and ctx.flip() else dict(padding=pad)
    arg = t.as_tensor(pos)
    osh, lo = INI.calc_object_setup(ctx.choice([t.Size(sh), sh, list(sh)]), arg, **kw)
    ctx.equal(arg, pos, 'inputs_unchanged')
    ctx.close(lo, pos.min(0) - pad, 'min_translation', rtol=1e-6, scale=200)
    want = np.ceil(pos.max(0) - pos.min(0)).astype(int) + np.array(sh) + 2 * pad
    ctx.equal(np.array(osh), want, 'object_shape', f'{pos.min(0)} {pos.max(0)} {sh} {pad}')
    ctx.sig('setup', n > 1, whole, pad > 0)
    ctx.note('object_setup')
    # every window lies on the object, wherever rounding errors move it
    p = arg - lo
    p = p + t.as_tensor(rng.uniform(-1, 1, pos.shape).astype(np.float32)) * 1e-5 * (1 + 0 * p)
    probe = t.as_tensor(C(rng, 1, *sh).astype(np.complex64))
    obj = t.ones(tuple(osh), dtype=t.complex64)
    ew = tools.interactions.ptycho_2D_sinc(probe, obj, p, multiple_modes=True)
    ctx.expect(tuple(ew.shape) == (n, 1) + sh, 'window_off_object', str(tuple(ew.shape)))
    ctx.close((np.abs(tonp(ew)) ** 2).sum((1, 2, 3)), np.full(n, (np.abs(tonp(probe)) ** 2).sum()), 'window_power', rtol=1e-4) \
        if min(sh) > 2 and all(x % 2 for x in sh) else None
    if pad == 0:
        ctx.note('edge_window')


def gaussian(ctx):
    rng = ctx.rng
    sh = (ctx.integer(1, 40), ctx.integer(1, 40))
    sig = rng.uniform(0.6, 12, 2)
    kw = {}
    ce = (np.array(sh) - 1) / 2
    cu = np.zeros(2)
    am = 1
    if ctx.flip():
        ce = rng.uniform(-3, 40, 2)
        kw['center'] = ctx.choice([tuple(ce), list(ce)])
    if ctx.flip():
        cu = rng.uniform(-0.3, 0.3, 2)
        kw['curvature'] = list(cu)
    if ctx.flip():
        am = ctx.choice([3.5, 2 - 1j, 1e4])
        kw['amplitude'] = am
    got = INI.gaussian(ctx.choice([sh, t.Size(sh), list(sh)]), ctx.choice([tuple(sig), list(sig), sig]), **kw)
    ctx.expect(got.dtype == t.complex64, 'gaussian_dtype', str(got.dtype))
    y, x = (np.arange(sh[0]) - ce[0])[:, None], (np.arange(sh[1]) - ce[1])[None]
    want = am * np.exp(-y ** 2 / (2 * sig[0] ** 2) - x ** 2 / (2 * sig[1] ** 2)) * np.exp(0.5j * (cu[0] * y ** 2 + cu[1] * x ** 2))
    ctx.close(got, want, 'gaussian', rtol=1e-5, scale=abs(am), msg=str(sorted(kw)))
    ctx.sig('gaussian', *sorted(kw))
    ctx.note('gaussian')


def gaussian_probe(ctx):
    rng = ctx.rng
    s, ds = gen.small_dataset(rng, n=ctx.integer(1, 5), shape=(ctx.integer(6, 12), ctx.integer(6, 12)),
                              background=ctx.flip(), mask=False)
    n = 2 * ctx.integer(32, 48)
    sh = (n, n + ctx.integer(-3, 3))
    px = rng.uniform(20, 100, 2) * s.wavelength                   # pixels much larger than the wavelength
    dirs = gen.rot(rng.normal(size=3), rng.uniform(0, 0.3)) @ np.array([[0, -1.], [-1, 0], [0, 0]])
    basis = dirs * px
    scalar = ctx.flip(0.4)
    w = rng.uniform(2.2, 3.5, 2) * px                             # sigma of the intensity is w / sqrt(2)
    if scalar:
        w = np.full(2, rng.uniform(2.4, 3.2) * px.max())
        if w[0] / px.min() > 6:
            raise Skip('too wide')
    # less than about two Rayleigh lengths, so that the beam stays in the frame
    zr = 2 * np.pi / s.wavelength * w ** 2
    z = 0 if ctx.flip(0.35) else rng.uniform(-1.3, 1.3) * zr.min()
    args = dict() if z == 0 and ctx.flip() else dict(propagation_distance=ctx.choice([z, np.float64(z)]) if z else ctx.choice([0, None]))
    bt = t.as_tensor(basis, dtype=t.float32) if ctx.flip() else basis
    probe = INI.gaussian_probe(ds, bt, ctx.choice([sh, t.Size(sh)]), float(w[0]) if scalar else ctx.choice([list(w), w]), **args)
    got = tonp(probe).astype(complex)
    ctx.expect(got.shape == sh and probe.dtype == t.complex64, 'gaussian_probe_type', f'{got.shape} {probe.dtype}')
    y, x = (np.arange(sh[0]) - (sh[0] - 1) / 2)[:, None] * px[0], (np.arange(sh[1]) - (sh[1] - 1) / 2)[None] * px[1]
    waist = np.exp(-y ** 2 / (2 * w[0] ** 2) - x ** 2 / (2 * w[1] ** 2))
    # independent propagation, on a frame which is wide enough
    k = 2 * np.pi / s.wavelength
    ky = 2 * np.pi * np.fft.fftfreq(sh[0], px[0])[:, None]
    kx = 2 * np.pi * np.fft.fftfreq(sh[1], px[1])[None]
    want = np.fft.ifft2(np.fft.fft2(waist) * np.exp(-1j * z * (ky ** 2 + kx ** 2) / (2 * k)))
    total = s.patterns.astype(float).sum((1, 2)).mean()
    want = want * np.sqrt(total / (np.abs(want) ** 2).sum())
    ctx.close((np.abs(got) ** 2).sum(), total, 'gaussian_power', rtol=1e-4)
    ctx.close(np.abs(got), np.abs(want), 'gaussian_size', rtol=5e-3, scale=np.abs(want).max())
    # Up to the purely z dependent phase. The sign of the curvature is the one of the tests of the repository, a positive
    # distance is before the focus
    q = np.vdot(got, want.conj())
    ctx.close(got * q / abs(q), want.conj(), 'gaussian_wavefront', rtol=1e-2, msg=f'z/zr={z / zr}')
    if z:
        ctx.note('gaussian_propagated')
    ctx.sig('gaussian_probe', scalar, z == 0, np.sign(z))
    ctx.note('gaussian_probe')


def mean_amplitude(s):
    p = s.patterns.astype(float)
    m = p.mean(0)
    if s.mask is not None:
        m = m * s.mask
    if s.background is not None:
        m = np.clip(m - s.background.astype(float), 0, None)
    return np.sqrt(m)


def embed(x, f):
    full = tuple(f * n for n in x.shape)
    out = np.zeros(full, dtype=complex)
    a, b = full[0] // 2 - x.shape[0] // 2, full[1] // 2 - x.shape[1] // 2
    out[a:a + x.shape[0], b:b + x.shape[1]] = x
    return out


def sharp_probe(s, f=1, z=None):
    p = embed(ref.iff(mean_amplitude(s)), f)
    if z is not None:
        px = s.wavelength * s.distance / (np.array(s.shape) * np.linalg.norm(s.basis, axis=0))
        p = ref.near(p, ref.angular_spectrum(p.shape, px, s.wavelength, z))
    return p


def spec(ctx, lo=3, hi=16, **kw):
    s = gen.make_spec(ctx.rng, n=ctx.integer(1, 5), min_side=lo, max_side=hi, basis_tilt=ctx.flip(0.3), **kw)
    gen.decorate(ctx.rng, s, qe_mask=False, orientation=False)
    if s.mask is not None and ctx.flip(0.5):
        s.patterns[:, ~s.mask] = ctx.choice([np.nan, 1e6, -50.0])
        s.patterns = np.where(s.mask, s.patterns, s.patterns)
    return s


def sane(s):
    """What masked pixels hold does not matter"""
    if s.mask is not None:
        s.patterns = np.where(s.mask, s.patterns, 0)
    return s


def sharp(ctx):
    s = spec(ctx)
    ds = gen.build(s)
    sane(s)
    f = ctx.choice([1, 1, 2, 3])
    px = s.wavelength * s.distance / (np.array(s.shape) * np.linalg.norm(s.basis, axis=0))
    z = ctx.rng.uniform(-2, 2) * px.min() ** 2 / s.wavelength * 3 if ctx.flip(0.4) else None
    if px.min() < 3 * s.wavelength:
        z = None
    kw = {}
    if f != 1 or ctx.flip():
        kw['oversampling'] = f
    if z is not None or ctx.flip():
        kw['propagation_distance'] = z
    got = INI.SHARP_style_probe(ds, **kw)
    want = sharp_probe(s, f, z)
    ctx.sig('sharp', f, z is not None, s.mask is not None, s.background is not None, s.shape[0] % 2, s.shape[1] % 2)
    ctx.expect(got.dtype == t.complex64, 'sharp_dtype', str(got.dtype))
    ctx.close(got, want, 'sharp_probe', rtol=1e-4 if z is None else 1e-3, msg=f'{kw} {s.shape}')
    ctx.close((np.abs(tonp(got).astype(complex)) ** 2).sum(), (mean_amplitude(s) ** 2).sum(), 'sharp_power', rtol=1e-4)
    ctx.note('sharp')
    if f > 1:
        ctx.note('sharp_oversampled')
    if z is not None:
        ctx.note('sharp_propagated')


def sharp_near(ctx):
    s = spec(ctx)
    ds = gen.build(s)
    sane(s)
    f = ctx.choice([1, 1, 2, 3])
    seen = []
    K = np.exp(1j * ctx.rng.uniform(0, 6, s.shape))

    def back(x):
        seen.append(x)
        return tools.propagators.near_field(x, t.as_tensor(K.astype(np.complex64)))
    got = INI.SHARP_style_near_field_probe(ds, back, **({} if f == 1 and ctx.flip() else dict(oversampling=f)))
    ctx.expect(len(seen) == 1, 'propagated_once', str(len(seen)))
    ctx.close(seen[0], mean_amplitude(s) + 0j, 'near_amplitude', rtol=1e-5)
    want = upsample(ref.near(mean_amplitude(s) + 0j, K), f)
    ctx.close(got, want, 'near_probe', rtol=2e-4, msg=f'{f} {s.shape}')
    ctx.sig('near', f, s.mask is not None, s.background is not None)
    ctx.note('sharp_near')


def upsample(x, f):
    """Fourier upsampling which conserves the power"""
    if f == 1:
        return x
    full = tuple(f * n for n in x.shape)
    F = ref.ff(x)
    out = np.zeros(full, dtype=complex)
    a, b = full[0] // 2 - x.shape[0] // 2, full[1] // 2 - x.shape[1] // 2
    out[a:a + x.shape[0], b:b + x.shape[1]] = F
    return ref.iff(out)


def stem(ctx):
    rng = ctx.rng
    s = gen.make_spec(rng, n=ctx.integer(1, 4), min_side=8, max_side=20, basis_tilt=ctx.flip(0.3),
                      wavelength=10 ** rng.uniform(-11.7, -10.5), distance=rng.uniform(0.001, 0.004))
    # an off-center pattern
    s.patterns = np.roll(s.patterns, (ctx.integer(-2, 2), ctx.integer(-2, 2)), axis=(1, 2))
    gen.decorate(rng, s, mask=False, background=False, qe_mask=False, intensities=False, orientation=False)
    ds = gen.build(s)
    if ctx.flip(0.2):
        s.patterns = np.round(s.patterns)
        ds.patterns = t.as_tensor(s.patterns.astype(ctx.choice([np.int32, np.int64])))
        ctx.note('stem_counts')
    m = s.patterns.astype(float).mean(0)
    I, J = np.mgrid[:s.shape[0], :s.shape[1]]
    c = np.array([(I * m).sum(), (J * m).sum()]) / m.sum()
    # the simulated array: k x k pixels for each of the detector, some outside of the detector
    k = ctx.choice([1, 1, 1, 2, 3])
    sl, start, full = None, (0, 0), np.array(s.shape)
    if ctx.flip(0.35):
        start = (ctx.integer(0, 5), ctx.integer(0, 5))
        full = full + np.array(start) + np.array((ctx.integer(0, 4), ctx.integer(0, 4)))
        sl = tuple(slice(start[q], start[q] + s.shape[q]) for q in range(2))
        if start == (start[0], 0) and full[1] == s.shape[1] and ctx.flip():
            sl = sl[0]
        ctx.note('stem_larger')
    sim = tuple(int(x) for x in full * k)
    cs = (c + np.array(start) + 0.5) * k - 0.5           # the same place in pixels of the simulation
    I, J = np.mgrid[:sim[0], :sim[1]]
    R = np.array([0, 0, s.distance]) + (I - cs[0])[..., None] * s.basis[:, 0] / k + (J - cs[1])[..., None] * s.basis[:, 1] / k
    ang = np.arccos(R[..., 2] / np.linalg.norm(R, axis=-1)) * 1000
    semi = float(np.quantile(ang, rng.uniform(0.1, 0.6)))
    if semi < 5 or np.abs(ang - semi).min() < 0.02 * semi:
        semi = semi * 1.01 + 0.003
    if semi < 5 or np.abs(ang - semi).min() < 0.003 * semi:
        raise Skip('a pixel on the edge of the cone')
    px = s.wavelength * s.distance / (full * np.linalg.norm(s.basis, axis=0))
    z = rng.uniform(-2, 2) * px.min() ** 2 / s.wavelength if ctx.flip(0.4) and px.min() > 2 * s.wavelength else None
    kw = {} if z is None else dict(propagation_distance=z)
    if k > 1 or ctx.flip(0.3):
        kw['oversampling'] = k
        ctx.note('stem_oversampled', int(k > 1))
    got = INI.STEM_style_probe(ds, ctx.choice([sim, list(sim), t.Size(sim)]), sl, semi, **kw)
    F = np.where(ang < semi, 1.0, 0)
    F = F * np.sqrt(m.sum() / F.sum()) * k               # a pixel of the detector sees the mean of k x k
    want = ref.iff(F)
    if z is not None:
        want = ref.near(want, ref.angular_spectrum(sim, px, s.wavelength, z))
    ctx.close(got, want, 'stem_probe', rtol=1e-3, msg=f'{s.shape} {sim} {sl} {semi} {z}')
    ctx.close((np.abs(tonp(got).astype(complex)) ** 2).sum(), m.sum() * k ** 2, 'stem_power', rtol=1e-4)
    ctx.sig('stem', z is None, s.shape[0] % 2, s.shape[1] % 2, k, sl is None)
    ctx.note('stem')


def spectral(ctx):
    """The guess consists of leading eigenvectors of A Y A+"""
    rng = ctx.rng
    sh = (ctx.integer(7, 12), ctx.integer(7, 12))
    osh = (ctx.integer(3, min(5, sh[0])), ctx.integer(3, min(5, sh[1])))
    probe = gen.smooth_field(rng, sh, sigma=0.3).astype(np.complex64)
    multi = ctx.flip(0.4)
    obj = C(rng, *osh)
    pat = rng.uniform(0.2, 1, sh) * 100
    bg = rng.uniform(0, 5, sh).astype(np.float32) if ctx.flip() else None
    mask = rng.random(sh) > 0.1 if ctx.flip() else None
    pattern = (pat + (bg if bg is not None else 0)).astype(np.float32)
    eff = pattern.astype(float) - (bg if bg is not None else 0)
    if mask is not None:
        eff = eff * mask
        pattern = np.where(mask, pattern, ctx.choice([1e5, 0.0, -3.0])).astype(np.float32)
    eff = np.abs(eff).ravel()
    pr = probe
    arg = probe
    if multi:
        arg = np.stack([probe, 0.1 * gen.smooth_field(rng, sh).astype(np.complex64)])
        pr = np.linalg.svd(arg.reshape(2, -1).astype(complex), full_matrices=False)[2][0].reshape(sh)
    p0, p1 = (sh[0] - osh[0]) // 2, (sh[1] - osh[1]) // 2
    cols = []
    for k in range(osh[0] * osh[1]):
        e = np.zeros(osh[0] * osh[1], dtype=complex)
        e[k] = 1
        F = np.zeros(sh, dtype=complex)
        F[p0:p0 + osh[0], p1:p1 + osh[1]] = ref.ff(e.reshape(osh))
        cols.append(ref.ff(pr * ref.iff(F)).ravel())
    Ad = np.array(cols).T
    A = Ad.conj().T
    vec = np.abs(Ad @ (A @ (Ad @ np.ones(osh[0] * osh[1]))))
    if vec.min() < 1e-3 * vec.max():
        raise Skip('badly conditioned')
    M = A @ ((eff / vec)[:, None] * Ad)
    w, V = np.linalg.eigh((M + M.conj().T) / 2)
    nm = ctx.choice([1, 1, 2])
    w = w[::-1]
    if w[nm - 1] - w[nm] < 0.03 * w[0]:
        raise Skip('degenerate')
    V = V[:, ::-1][:, :nm]
    got = INI.RPI_spectral_init(t.as_tensor(pattern), t.as_tensor(arg), osh, n_modes=nm,
                                mask=None if mask is None else t.as_tensor(mask), background=None if bg is None else t.as_tensor(bg))
    got = tonp(got).astype(complex)
    ctx.expect(got.shape == (nm,) + osh, 'spectral_shape', str(got.shape))
    ctx.expect(np.isfinite(got).all(), 'spectral_finite', '')
    X = got.reshape(nm, -1).T
    X = X / np.linalg.norm(X, axis=0)
    ctx.close(np.linalg.norm(V @ (V.conj().T @ X), axis=0), np.ones(nm), 'spectral_eigenvectors', rtol=2e-3, msg=f'{nm} {multi}')
    ctx.sig('spectral', nm, multi, mask is not None, bg is not None)
    ctx.note('spectral')


def subdominant(ctx):
    rng = ctx.rng
    sh = (ctx.integer(4, 14), ctx.integer(4, 14))
    dom = gen.smooth_field(rng, sh).astype(np.complex64) * 10 ** rng.uniform(-2, 3)
    n = ctx.integer(1, 9)
    circ = ctx.flip()
    arg = t.as_tensor(dom)
    got = tonp(INI.generate_subdominant_modes(arg, n, **({} if circ and ctx.flip() else dict(circular=circ)))).astype(complex)
    ctx.equal(arg, dom, 'inputs_unchanged')
    ctx.expect(got.shape == (n,) + sh, 'subdominant_shape', str(got.shape))
    F = ref.ff(dom.astype(complex))
    y, x = (np.arange(sh[0]) - sh[0] // 2)[:, None] + 0j, (np.arange(sh[1]) - sh[1] // 2)[None] + 0j
    a, b = (y + 1j * x, y - 1j * x) if circ else (y + 0 * x, x + 0 * y)
    want = []
    order = 1
    while len(want) < n:
        for k in range(order + 1):
            m = ref.iff(a ** k * b ** (order - k) * F)
            want.append(m * np.sqrt((np.abs(dom.astype(complex)) ** 2).sum() / (np.abs(m) ** 2).sum()))
        order += 1
    ctx.close(got, np.array(want[:n]), 'subdominant_modes', rtol=2e-4, msg=f'{n} {circ}')
    ctx.close((np.abs(got) ** 2).sum((1, 2)), np.full(n, (np.abs(dom.astype(complex)) ** 2).sum()), 'subdominant_power', rtol=1e-4)
    ctx.sig('subdominant', n, circ)
    ctx.note('subdominant')


# --- models ------------------------------------------------------------------------------------------------
def windows(ctx, md, pad):
    """Every window of the scan lies on the object, with its margin, and nothing is wasted"""
    s, m, c = md.spec, md.model, md.cfg
    pix = vm.pixel_positions(md)
    ov = int(c.get('oversampling', 1) or 1)
    sh = np.array(s.shape) * ov
    osh = np.array(m.obj.shape[-2:])
    tol = 2e-3
    ctx.expect((pix.min(0) >= pad - tol).all(), 'window_below_object', f'{pix.min(0)} {pad}')
    ctx.expect((pix.max(0) + sh <= osh - pad + tol).all(), 'window_above_object', f'{pix.max(0)} {sh} {osh} {pad}')
    ctx.close(pix.min(0), np.full(2, float(pad)), 'object_origin', rtol=0, atol=tol) if True else None
    ctx.expect((osh - pad - sh - pix.max(0) < 1 + tol).all(), 'object_too_large', f'{pix.max(0)} {sh} {osh} {pad}')
    idx = np.sort(ctx.rng.permutation(s.n)[:ctx.integer(1, s.n)])
    (i, tr, *x), p = md.dataset[idx]
    with t.no_grad():
        ew = m.interaction(i, tr)
    ctx.expect(tuple(ew.shape[-2:]) == tuple(sh), 'window_off_object', str(tuple(ew.shape)))
    ctx.note('all_windows')
    with t.no_grad():
        return tonp(m.forward(i, tr)), idx


def from_dataset(ctx):
    kind = ctx.choice(['fancy', 'fancy', 'fancy', 'simple', 'multislice', 'multislice', 'bragg', 'bragg'])
    cfg = {}
    pad = 0
    if kind != 'simple':
        pad = cfg['obj_padding'] = ctx.choice([0, 1, ctx.integer(2, 9)])
        cfg['obj_view_crop'] = ctx.choice([0, None, None, 2, -1, -3])
    plain = ctx.flip(0.35)
    if plain and kind != 'simple':
        cfg.update(n_modes=1, oversampling=1, probe_support_radius=None)
        if kind in ('fancy', 'multislice'):
            cfg.update(dm_rank=None, probe_fourier_crop=None, simulate_finite_pixels=False, simulate_probe_translation=False)
        if kind == 'fancy':
            cfg.update(n_obj_modes=1, use_qe_mask=False)
        if kind == 'multislice':
            cfg['propagator_fourier_crop'] = None
    if kind == 'bragg' and not plain and ctx.flip(0.4):
        cfg['probe_fourier_crop'] = [ctx.integer(0, 2), ctx.integer(0, 2)]
    if kind in ('fancy', 'multislice') and ctx.flip(0.5):
        cfg['randomize_ang'] = 0
    if kind == 'multislice' and ctx.flip(0.3):
        cfg['propagation_distance'] = ctx.rng.uniform(-1, 1) * 1e-6
    md = vm.make(ctx, kind, n=ctx.integer(2, 7), cfg=cfg, randomize=False, freeze=False, dec=dict(intensities=False) if plain else None)
    s, m, c = md.spec, md.model, md.cfg
    check_model(ctx, md, kind, pad, plain)
    if kind != 'simple':
        # the part of the object which is shown: without the margin, and half a window at the edge if nothing else is asked
        v = cfg['obj_view_crop']
        half = min(x * int(c.get('oversampling', 1) or 1) for x in s.shape) // 2
        v = max((half if v is None else half + v if v < 0 else v) + pad, 0)
        o = tonp(m.obj)
        got = m.obj[(slice(None),) + m.obj_view_slice] if kind == 'multislice' else m.obj[m.obj_view_slice]
        ctx.equal(tonp(got), o[..., v:o.shape[-2] - v, v:o.shape[-1] - v] if min(o.shape[-2:]) > 2 * v else tonp(got)[..., :0, :0],
                  'object_view', f'{kind} {cfg["obj_view_crop"]} {pad}')
        ctx.note('object_view')
    ctx.note(kind)
    ctx.sig(kind, plain, c.get('oversampling'), bool(c.get('probe_fourier_crop')), bool(c.get('near_field')), s.mask is not None,
            s.background is not None, s.intensities is not None, pad == 0, c.get('fourier_probe'), c.get('dm_rank'))


def check_model(ctx, md, kind, pad, plain):
    s, m, c = md.spec, md.model, md.cfg
    ov = int(c.get('oversampling', 1) or 1)
    nf = bool(c.get('near_field'))
    norm = float(m.probe_norm)
    probe = tonp(m.probe).astype(complex) * norm
    if kind == 'simple':
        probe = probe[None]
    # geometry
    M = getattr(s, 'M', 1.0) if nf else 1.0
    if kind == 'simple':
        ob = s.obj_basis
        got_ob = m.probe_basis
    else:
        ob = s.true_obj_basis if kind == 'bragg' else s.basis / (M * ov) if nf else s.obj_basis
        got_ob = m.obj_basis
        ctx.close(m.det_basis, s.basis, 'detector_basis', rtol=1e-5)
        ctx.close(tonp(m.wavelength).astype(float), s.wavelength, 'wavelength', rtol=1e-5)
    ctx.close(got_ob, ob, 'object_basis', rtol=2e-4, msg=str({k: c.get(k) for k in ('near_field', 'oversampling')}))
    if kind in ('fancy', 'multislice'):
        n = np.array([0, 0, 1.])
        if s.sample_info is not None and 'orientation' in s.sample_info and c.get('scattering_mode') is None:
            n = s.sample_info['orientation'][2]
        ctx.close(m.surface_normal, n, 'surface_normal', rtol=1e-5)
    # the dominant mode
    z = c.get('propagation_distance')
    full = tuple(ov * x for x in s.shape)
    if nf:
        # the mean pattern, brought back to the sample, in the pixels of the detector plane
        px = np.linalg.norm(s.basis, axis=0) / M
        zz = s.distance / M
        want = upsample(ref.near(mean_amplitude(s) + 0j, np.conj(ref.angular_spectrum(s.shape, px, s.wavelength, zz))), ov)
        ctx.note('near_field')
    else:
        want = sharp_probe(s, ov, z)
    crop = c.get('probe_fourier_crop')
    pb = np.array(ob)
    if crop is not None and np.any(crop):
        a, b = (crop, crop) if np.ndim(crop) == 0 else crop
        F = ref.ff(want)
        want = ref.iff(F[a:F.shape[0] - a, b:F.shape[1] - b])
        ctx.note('cropped')
    pb = pb * (np.array(full) / np.array(want.shape))[None]
    if kind != 'simple':
        ctx.close(m.probe_basis, pb, 'probe_basis', rtol=2e-4, msg=f'crop {crop} oversampling {ov}')
    # support
    R = c.get('probe_support_radius')
    sup = np.ones(want.shape)
    if R is not None:
        y, x = np.mgrid[:want.shape[0], :want.shape[1]]
        r = np.hypot(y - (want.shape[0] - 1) / 2, x - (want.shape[1] - 1) / 2)
        sup = (r < R).astype(float)
        if np.abs(r - R).min() < 1e-6:
            raise Skip('a pixel on the edge of the support')
    if hasattr(m, 'probe_support') and m.probe_support is not None:
        ctx.close(np.broadcast_to(tonp(m.probe_support).astype(float), want.shape), sup, 'probe_support', rtol=1e-6)
    fourier = bool(c.get('fourier_probe'))
    top = np.abs(want).max()
    first = ref.ff(want) if fourier else want
    if R is not None:
        first = first * sup
    tol = 3e-3 if nf or z is not None else 3e-4
    if nf and s.wavelength * s.distance / np.linalg.norm(s.basis, axis=0).min() ** 2 > 1e3:
        tol = 3e-2
    ctx.close(probe[0], first, 'dominant_mode', rtol=tol, msg=str({k: v for k, v in c.items() if k in (
        'near_field', 'oversampling', 'probe_fourier_crop', 'fourier_probe', 'probe_support_radius', 'propagation_distance')}))
    ctx.expect(len(probe) == c.get('n_modes', 1), 'number_of_modes', f'{probe.shape} {c.get("n_modes")}')
    for q in probe[1:]:
        # weak, different from each other, and not empty
        ctx.expect(np.abs(q).max() <= 0.0101 * np.sqrt(2) * top and np.abs(q * sup).max() > 1e-4 * top, 'subdominant_size',
                   f'{np.abs(q).max()} {top}')
    if len(probe) > 2:
        ctx.expect(not np.allclose(probe[1], probe[2], rtol=1e-3), 'modes_are_equal')
    # the object
    obj = tonp(m.obj).astype(complex)
    if kind == 'simple':
        ctx.close(obj, np.ones(obj.shape) + 0j, 'first_object', rtol=1e-6)
    else:
        ang = c.get('randomize_ang', 0)
        # beyond the first object mode, and for slices
        o = obj if kind == 'multislice' else obj[None] if obj.ndim == 2 else obj[:1]
        phase = np.angle(o) if not c.get('exponentiate_obj') else o.real
        if not c.get('exponentiate_obj'):
            ctx.close(np.abs(o), np.ones(o.shape), 'first_object', rtol=1e-5)
        else:
            ctx.close(o.imag, np.zeros(o.shape), 'first_object', scale=1, rtol=1e-6)
        ctx.expect(np.abs(phase).max() <= ang / 2 + 1e-5, 'first_phases', f'{np.abs(phase).max()} {ang}')
        if ang:
            ctx.expect(phase.std() > ang / np.sqrt(12) / 2, 'first_phases', f'{phase.std()} {ang}')
        if kind == 'multislice':
            ctx.expect(obj.shape[0] == c['nz'], 'number_of_slices', str(obj.shape))
        if c.get('n_obj_modes', 1) > 1:
            ctx.expect(obj.shape[0] == c['n_obj_modes'], 'number_of_object_modes', str(obj.shape))
    # weights, background, mask
    if kind != 'simple':
        W = tonp(m.weights).astype(complex)
        base = np.ones(s.n)
        if s.intensities is not None and kind != 'bragg':
            base = np.sqrt(s.intensities.astype(float))
            base = base / base.mean()
        rank = c.get('dm_rank')
        if rank in (None, 0):
            ctx.close(W, base + 0j, 'first_weights', rtol=1e-5)
        else:
            rank = c['n_modes'] if rank == -1 else rank
            ctx.close(W, base[:, None, None] * np.eye(rank, c['n_modes'])[None] + 0j, 'first_weights', rtol=1e-5)
        bg = tonp(m.background).astype(float)
        if s.background is not None:
            ctx.close(bg ** 2, s.background.astype(float), 'background', rtol=1e-5)
        else:
            ctx.expect(bg.shape == tuple(s.shape) and np.abs(bg).max() <= 1e-5, 'background', str(np.abs(bg).max()))
        mk = getattr(m, 'mask', None)
        if s.mask is None:
            ctx.expect(mk is None or bool(tonp(mk).all()), 'mask')
        else:
            ctx.equal(tonp(mk).astype(bool), s.mask, 'mask')
        off = tonp(m.translation_offsets)
        ctx.equal(off, np.zeros((s.n, 2), dtype=off.dtype), 'first_offsets')
    pred, idx = windows(ctx, md, pad)
    # the first guess predicts the mean pattern
    flat = plain and (kind == 'simple' or (c.get('randomize_ang', 0) == 0 and not c.get('probe_support_radius')
                                           and not c.get('allow_probe_fourier_shifts')))
    if flat and kind == 'bragg':
        flat = not c.get('correct_tilt', True)
    if flat and (not nf or s.shape[0] % 2 and s.shape[1] % 2):
        exact = all(x % 2 for x in s.shape)
        want = mean_amplitude(s) ** 2
        if s.background is not None and kind != 'simple':
            want = want + s.background.astype(float)
        # sub-pixel shifts treat the highest frequency of even shapes differently
        ctx.close(pred.sum((-1, -2)), np.full(len(idx), want.sum()), 'predicted_power', rtol=2e-3 if nf else 1e-3, msg=f'{kind}')
        ctx.close(pred, np.broadcast_to(want, pred.shape), 'mean_pattern', rtol=max(tol, 1e-3), atol=1e-5, msg=f'{kind} {s.shape}') \
            if exact or not nf else None
        ctx.note('mean_pattern')


def reflection(ctx):
    """Detectors at large angles, in reflection"""
    rng = ctx.rng
    s = gen.make_spec(rng, n=ctx.integer(2, 6), min_side=8, max_side=12)
    # the outgoing beam at 2 theta in some plane
    az = rng.uniform(0, 2 * np.pi)
    R = gen.rot([np.cos(az), np.sin(az), 0], rng.uniform(0.4, 2.6))
    s.basis = R @ s.basis
    s.obj_basis = gen.exit_wave_basis(s.basis, s.shape, s.wavelength, s.distance)
    k_out = R @ np.array([0, 0, 1.])
    n = gen.unit(k_out - np.array([0, 0, 1.]))
    s.sample_info = {'orientation': np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1.]])} if ctx.flip(0.3) else None
    # positions on the sample, the depth follows from the surface
    v = rng.uniform(-1, 1, (s.n, 2)) * 4 * np.linalg.norm(s.obj_basis, axis=0).min()
    s.translations = np.concatenate([v, np.zeros((s.n, 1))], axis=1)
    ds = gen.build(s)
    kind = ctx.choice(['fancy', 'fancy', 'multislice', 'bragg'])
    mode = ctx.choice(['r', 'reflection'])
    if kind == 'bragg':
        # the surface halves the angle of the beams, and its pixels look like those of the wavefield along the beam
        how = ctx.choice(['reflection', 'reflection', 'transmission', 'sample', 'none'])
        kw = {}
        if how == 'reflection':
            kw['scattering_mode'] = ctx.choice([mode, mode.upper(), ' ' + mode])
        elif how == 'transmission':
            kw['scattering_mode'] = ctx.choice(['t', 'transmission', 'T '])
            n = np.array([0, 0, 1.])
        elif how == 'sample':
            Q = gen.rot(gen.unit(rng.normal(size=3)), rng.uniform(0, 0.6))
            ds.sample_info = {'orientation': Q}
            n = Q[2]
        else:
            ds.sample_info = ctx.choice([None, {'name': 'x'}])
            n = np.array([0, 0, 1.])
        if abs(k_out @ n) < 0.15:
            raise Skip('the beam leaves along the surface')
        ctx.param(how=how)
        m = models.Bragg2DPtycho.from_dataset(ds, obj_padding=3, **kw)
        got = tonp(m.surface_normal).astype(float)
        ctx.close(got * np.sign(got @ n), n, 'reflection_normal', rtol=1e-4)
        B = tonp(m.obj_basis).astype(float)
        ctx.close(B.T @ n, np.zeros(2), 'reflection_basis', rtol=1e-4, scale=np.linalg.norm(B))
        e = np.cross(s.obj_basis[:, 0], s.obj_basis[:, 1])
        e = e / np.linalg.norm(e)
        ctx.close(B - np.outer(e, e @ B), s.obj_basis, 'reflection_basis_projected', rtol=1e-3, scale=np.linalg.norm(B))
        ctx.sig('reflection', kind, how)
        ctx.note('reflection')
        return
    pad = ctx.choice([0, 3])
    kw = dict(scattering_mode=mode, obj_padding=pad, obj_view_crop=0)
    try:
        m = models.FancyPtycho.from_dataset(ds, **kw) if kind == 'fancy' else \
            models.MultislicePtycho.from_dataset(ds, 1e-9, 2, **kw)
    finally:
        pass
    got = tonp(m.surface_normal).astype(float)
    ctx.close(got * np.sign(got @ n), n, 'reflection_normal', rtol=1e-5)
    T = s.translations.copy()
    T[:, 2] = -(n[0] * T[:, 0] + n[1] * T[:, 1]) / n[2]
    pix = T @ np.linalg.pinv(s.obj_basis).T
    if np.ptp(pix, axis=0).max() > 300:
        raise Skip('grazing')
    ctx.close(m.min_translation, pix.min(0) - pad, 'reflection_origin', rtol=2e-3, atol=2e-3)
    ctx.expect((np.abs(np.array(m.obj.shape[-2:]) - 2 * pad - np.array(s.shape) - np.ceil(np.ptp(pix, axis=0))) <= 1).all(),
               'reflection_object', f'{m.obj.shape} {np.ptp(pix, axis=0)}')
    ctx.sig('reflection', kind, mode, pad)
    ctx.note('reflection')


def rpi(ctx):
    md = vm.make(ctx, 'rpi', randomize=False, freeze=False)
    s, m, c = md.spec, md.model, md.cfg
    ov = c['oversampling']
    obj = tonp(m.obj).astype(complex)
    osh = tuple(c['obj_size']) if c.get('obj_size') is not None else tuple(x // 2 for x in s.probe.shape[-2:])
    ctx.expect(obj.shape == (c['n_modes'],) + tuple(int(x) for x in osh), 'rpi_object_shape', f'{obj.shape} {osh}')
    ctx.close(m.probe, s.probe, 'rpi_probe', rtol=1e-6)
    ctx.close(m.probe_basis, s.obj_basis, 'rpi_probe_basis', rtol=1e-4)
    scale = np.array(s.probe.shape[-2:]) / np.array(osh)
    ctx.close(m.obj_basis, s.obj_basis * scale[None], 'rpi_object_basis', rtol=1e-4)
    o = np.exp(1j * obj) if c.get('exponentiate_obj') else obj
    if c['initialization'] == 'uniform':
        ctx.close(o, np.ones(o.shape) + 0j, 'rpi_uniform', rtol=1e-5)
    else:
        ctx.close(np.abs(o), np.ones(o.shape), 'rpi_random', rtol=1e-5)
        ctx.expect(o.size < 6 or np.angle(o).std() > 0.5, 'rpi_random', str(np.angle(o).std()))
    W = tonp(m.weights)
    ctx.close(W, np.eye(len(s.probe)).astype(W.dtype), 'rpi_weights', rtol=1e-6)
    ctx.expect(m.weights.requires_grad == bool(c['weight_matrix']), 'rpi_trainable_weights')
    if s.background is not None:
        ctx.close(tonp(m.background) ** 2, s.background, 'background', rtol=1e-5)
    if s.mask is not None:
        ctx.equal(tonp(m.mask).astype(bool), s.mask, 'mask')
    ctx.sig('rpi', ov, c['initialization'], bool(c.get('exponentiate_obj')), c['weight_matrix'])
    ctx.note('rpi')


def calibration(ctx):
    """A model made from the results of a calibration describes that calibration"""
    rng = ctx.rng
    ov = ctx.choice([1, 1, 2])
    real = ctx.flip(0.4)
    if real:
        md = vm.make(ctx, 'fancy', cfg=dict(oversampling=ov, fourier_probe=False, probe_fourier_crop=None, near_field=False,
                                            propagation_distance=None, obj_view_crop=0))
        cal = md.model.save_results(md.dataset)
        det, wl = tuple(md.spec.shape), md.spec.wavelength
        if tuple(cal['probe'].shape[-2:]) != tuple(x * ov for x in det) or cal['probe'].ndim != 3:
            raise Skip('restricted probe')
    else:
        s = spec(ctx, lo=6, hi=14)
        det, wl = tuple(s.shape), s.wavelength
        n = ctx.integer(1, 3)
        cal = dict(wavelength=np.float32(wl), obj_basis=np.asarray(s.obj_basis, dtype=np.float32),
                   probe=C(rng, n, *[x * ov for x in det]).astype(np.complex64))
        if ov > 1 or ctx.flip():
            cal['oversampling'] = np.array(ov)
        if ctx.flip():
            cal['background'] = rng.uniform(0, 3, det).astype(np.float32)
        if ctx.flip():
            cal['mask'] = rng.random(det) > 0.2
    big = tuple(x * ov for x in det)
    c = dict(n_modes=ctx.choice([1, 1, 2, 3]), initialization=ctx.choice(['random', 'uniform']),
             exponentiate_obj=ctx.flip(0.4), saturation=ctx.choice([None, None, 5.0]))
    c['phase_only'] = c['exponentiate_obj'] and ctx.flip()
    if ctx.flip():
        c['obj_size'] = [ctx.integer(2, x) for x in big]
    m = models.RPI.from_calibration(cal, loss=ctx.choice(['amplitude mse', 'poisson nll', 'intensity mse']), **c)
    osh = tuple(c.get('obj_size', [x // 2 for x in big]))
    obj = tonp(m.obj).astype(complex)
    ctx.expect(obj.shape == (c['n_modes'],) + osh, 'calibration_object', f'{obj.shape} {osh}')
    o = np.exp(1j * obj) if c['exponentiate_obj'] else obj
    if c['initialization'] == 'uniform':
        ctx.close(o, np.ones(o.shape) + 0j, 'calibration_uniform', rtol=1e-5)
    else:
        ctx.close(np.abs(o), np.ones(o.shape), 'calibration_random', rtol=1e-5)
        ctx.expect(o.size < 6 or np.angle(o).std() > 0.5, 'calibration_random', str(np.angle(o).std()))
    ctx.close(m.probe, cal['probe'], 'calibration_probe', rtol=1e-6)
    ctx.close(m.wavelength, wl, 'calibration_wavelength', rtol=1e-5)
    ctx.close(m.probe_basis, cal['obj_basis'], 'calibration_basis', rtol=1e-5)
    ctx.close(m.obj_basis, np.asarray(cal['obj_basis'], float) * (np.array(big) / np.array(osh))[None], 'calibration_object_basis', rtol=1e-4)
    # The detector is the one on which this exit wave basis belongs
    back = INI.exit_wave_geometry(m.det_basis, det, m.wavelength, float(m.det_distance), oversampling=ov)
    ctx.close(back, cal['obj_basis'], 'calibration_detector', rtol=1e-3, atol=1e-4 * np.abs(cal['obj_basis']).max())
    ctx.close(tonp(m.background).astype(float) ** 2, cal.get('background', np.zeros(det)), 'calibration_background', rtol=1e-4)
    ctx.expect(m.background.shape == det, 'calibration_background', str(m.background.shape))
    ctx.equal(tonp(m.mask).astype(bool), np.asarray(cal.get('mask', np.ones(det, bool))), 'calibration_mask')
    # and it predicts what the formula says, for any object
    m.obj.data = t.as_tensor(C(rng, *obj.shape) * (0.3 if c['exponentiate_obj'] else 1)).to(m.obj.dtype)
    if c['phase_only']:
        m.obj.data.imag[:] = 0
    md2 = vm.Made(kind='rpi', spec=None, dataset=None, model=m, cfg=dict(c, oversampling=ov))
    nex = ctx.integer(1, 3)
    with t.no_grad():
        got = tonp(m.forward(t.arange(nex), t.zeros((nex, 3))))
    want = refmodel.rpi(md2, range(nex))
    ctx.expect(got.shape == (nex,) + det, 'calibration_shape', f'{got.shape} {det}')
    ctx.close(got, want, 'calibration_prediction', rtol=2e-4, atol=2e-4 * np.abs(want).max())
    # Another first guess can be made at any time
    kind = ctx.choice(['uniform', ' Random', 'SPECTRAL', 'nonsense'])
    nm = ctx.choice([None, 1, 2])
    k = c['n_modes'] if nm is None else nm
    if kind == 'nonsense':
        before = tonp(m.obj)
        try:
            m.init_obj(kind)
            ctx.violate('calibration_bad_init', 'an unknown initialization was accepted')
        except KeyError:
            pass
        ctx.equal(tonp(m.obj), before, 'calibration_bad_init')
    elif kind == 'SPECTRAL':
        if ov == 1 and osh[0] * osh[1] > k + 2:
            pat = t.as_tensor(rng.uniform(1, 100, det).astype(np.float32))
            want = INI.RPI_spectral_init(pat, m.probe, osh, mask=m.mask, background=t.as_tensor(np.asarray(cal.get('background', np.zeros(det)), dtype=np.float32)), n_modes=k)
            m.init_obj(kind, pattern=pat, n_modes=nm)
            ctx.expect(m.obj.shape == (k,) + osh, 'calibration_spectral', str(m.obj.shape))
            ctx.note('calibration_spectral')
            if np.isfinite(tonp(want)).all():
                ctx.expect(np.isfinite(tonp(m.obj)).all(), 'calibration_spectral', 'not finite')
        try:
            m.init_obj('spectral')
            ctx.violate('calibration_bad_init', 'spectral without a pattern')
        except KeyError:
            pass
    else:
        par = m.obj
        kw = {} if nm is None else dict(n_modes=nm)
        size = osh
        if ctx.flip():
            # (models which were made for another shape are not covered)
            kw['obj_shape'] = ctx.choice([tuple, list, t.Size])(size)
        if ctx.flip():
            m.init_obj(kind, **kw)
        else:
            getattr(m, kind.strip().lower() + '_init')(**kw)
        ctx.expect(m.obj is par and m.obj.requires_grad and m.obj.shape == (k,) + size, 'calibration_reinit', str(m.obj.shape))
        # which covers what the probe covers
        ctx.close(m.obj_basis, np.asarray(cal['obj_basis'], float) * (np.array(big) / np.array(size))[None],
                  'calibration_object_basis', rtol=1e-4)
        o = tonp(m.obj)
        ctx.close(np.abs(o), np.ones(o.shape), 'calibration_reinit', rtol=1e-5)
        ctx.expect((np.ptp(np.angle(o)) < 1e-5) == (kind == 'uniform' or o.size == 1), 'calibration_reinit', kind)
    ctx.sig('calibration', ov, real, c['n_modes'], c['initialization'], c['exponentiate_obj'], kind)
    ctx.note('calibration')
    ctx.note('calibration_real' if real else 'calibration_made')


WORKLOADS = {'geometry': (geometry, 300, 5000), 'object_setup': (object_setup, 400, 6000), 'gaussian': (gaussian, 300, 4000),
             'gaussian_probe': (gaussian_probe, 250, 2500), 'sharp': (sharp, 1200, 10000), 'sharp_near': (sharp_near, 450, 5000),
             'stem': (stem, 250, 3000), 'spectral': (spectral, 150, 1500), 'subdominant': (subdominant, 150, 2500),
             'from_dataset': (from_dataset, 2400, 20000), 'reflection': (reflection, 240, 3000), 'rpi': (rpi, 300, 4000), 'calibration': (calibration, 400, 5000)}
