"""P17: wave propagation is what physics says: unitary, invertible, additive, the exact phases."""
import numpy as np, torch as t
from vf import gen, ref
from vf.core import tonp
from cdtools.tools import propagators as pr

RULE = ('random wavefields (even, odd, rectangular, 2 to 4 dimensions, single and double precision) '
        'through every propagator, compared with explicit float64 formulas and with the laws '
        '(energy, inverse, linearity, additivity of distances); distinct by propagator, shape, '
        'precision and geometry')
ASSUMPTIONS = ['float32 propagators are compared while phases stay below about 100 radians']
# Cases of the quick tier, relative to the numbers below
QUICK = 2.5
REQUIRE = {'far': 100, 'near_single': 60, 'near_double': 60, 'negative_z': 40, 'bandlimit': 20,
           'generalized': 60, 'carrier': 40, 'evanescent': 20, 'backward_offset': 20, 'high_na': 40,
           'lens': 10}


def shape_of(ctx, lo=2, hi=24):
    return ctx.integer(lo, hi), ctx.integer(lo, hi)


def field(ctx, shape, lead=()):
    r = ctx.rng
    return r.normal(size=lead + shape) + 1j * r.normal(size=lead + shape)


def dft_matrix(n):
    k = np.arange(n) - n // 2
    return np.exp(-2j * np.pi * np.outer(k, k) / n) / np.sqrt(n)


def far(ctx):
    sh = shape_of(ctx, 1, 24)
    lead = ctx.choice([(), (), (2,), (2, 3), (1, 2, 2)])
    x = field(ctx, sh, lead)
    dt, rt = ctx.choice([(t.complex64, 1e-5), (t.complex128, 1e-12)])
    w = t.as_tensor(x, dtype=dt)
    w0 = w.clone()
    f = pr.far_field(w)
    A, B = dft_matrix(sh[0]), dft_matrix(sh[1])
    want = A @ x @ B.T
    ctx.close(f, want, 'far_field', rtol=rt, msg=f'{lead + sh}')
    ctx.expect(f.dtype == dt, 'far_dtype', f'{f.dtype}')
    ctx.close((f.abs() ** 2).sum((-1, -2)), (np.abs(x) ** 2).sum((-1, -2)), 'far_energy', rtol=4 * rt)
    ctx.close(pr.inverse_far_field(f), x, 'far_inverse', rtol=rt)
    ctx.close(pr.far_field(pr.inverse_far_field(w)), x, 'far_inverse', rtol=rt)
    ctx.close(pr.inverse_far_field(w), np.conj(A) @ x @ np.conj(B).T, 'inverse_far_field', rtol=rt)
    ctx.equal(w, w0, 'inputs_unchanged')
    # differentiable: the adjoint is the inverse
    w.requires_grad_(True)
    g = t.as_tensor(field(ctx, sh, lead), dtype=dt)
    pr.far_field(w).backward(g)
    ctx.close(w.grad, np.conj(A) @ tonp(g) @ np.conj(B).T, 'far_adjoint', rtol=rt)
    ctx.note('far')
    ctx.sig(lead, sh, dt)
    ctx.sample(shape=sh, lead=lead)


def near(ctx):
    sh = shape_of(ctx, 2, 24)
    double = ctx.flip()
    dt = t.complex128 if double else t.complex64
    wl = 10 ** ctx.uniform(-10, -7)
    sp = np.array([wl * 10 ** ctx.uniform(-0.5, 2.5) * ctx.uniform(0.7, 1.4) for _ in range(2)])
    if ctx.flip(0.7):
        sp[1] = sp[0] * ctx.uniform(0.7, 1.4)
    if not double:
        sp = sp.astype(np.float32).astype(float)
    # The phase of the outermost propagating wave
    k0 = 2 * np.pi / wl
    k2 = min((np.pi / sp[0]) ** 2 + (np.pi / sp[1]) ** 2, k0 ** 2)
    rate = k0 - np.sqrt(k0 ** 2 - k2)
    top = 1e3 if double else 80
    z = ctx.uniform(0.05, 1) * top / rate * ctx.choice([1, 1, -1])
    if ctx.flip(0.2):
        z = ctx.uniform(0.1, 3) * wl * np.sign(z)
    z = float(np.float32(z))
    kw = dict(dtype=dt) if double or ctx.flip() else {}
    spx = ctx.choice([tuple(sp), list(sp), sp, t.as_tensor(sp, dtype=t.float64 if double else t.float32)])
    bl = ctx.uniform(0.2, 1.2) if ctx.flip(0.25) else None
    ctx.param(sh=sh, wl=wl, sp=sp, z=z, bl=bl, dtype=dt)
    P = pr.generate_angular_spectrum_propagator(sh, spx, wl, z, bandlimit=bl, **kw)
    want = ref.angular_spectrum(sh, sp, wl, abs(z))
    evan = np.abs(np.abs(want) - 1) > 1e-6
    if z < 0:
        want = np.conj(want)
    rt = 1e-7 if double else 5e-4
    # close to grazing the phase is not determined by single precision
    kz = np.sqrt(np.maximum(0, 1 - ((2 * np.pi * ref.phase_freqs(sh[0]) / sh[0] / sp[0])[:, None] ** 2 +
                                    (2 * np.pi * ref.phase_freqs(sh[1]) / sh[1] / sp[1])[None, :] ** 2) / k0 ** 2))
    d2 = np.abs(1 - ((2 * np.pi * ref.phase_freqs(sh[0]) / sh[0] / sp[0])[:, None] ** 2 +
                     (2 * np.pi * ref.phase_freqs(sh[1]) / sh[1] / sp[1])[None, :] ** 2) / k0 ** 2)
    eps = 1e-15 if double else 5e-7
    err = abs(z) * k0 * np.abs(1 - kz ** 2) * eps * (1 + 1 / np.sqrt(np.maximum(d2, eps)))
    sure = err < rt / 3
    if bl is not None:
        # of the highest positive frequency of each axis, at the edges undefined
        fy, fx = ref.phase_freqs(sh[0]), ref.phase_freqs(sh[1])
        if fy.max() == 0 or fx.max() == 0:
            return
        R = np.sqrt((fy[:, None] / fy.max()) ** 2 + (fx[None, :] / fx.max()) ** 2)
        sure = sure & (np.abs(R - bl) > 1e-5)
        if sure.any():
            ctx.close(tonp(P)[sure], (want * (R < bl))[sure], 'bandlimit', rtol=rt, scale=1)
        ctx.note('bandlimit')
        ctx.sig('bl', sh, dt, z > 0)
        return
    if not sure.any():
        return
    ctx.close(tonp(P)[sure], want[sure], 'angular_spectrum', rtol=rt, scale=1,
              msg=f'{sh} spacing {sp} wavelength {wl} z {z}')
    ctx.expect(P.dtype == (dt if kw else t.complex64), 'propagator_dtype', str(P.dtype))
    ctx.expect(np.all(np.abs(tonp(P)) <= 1 + 1e-4), 'no_amplification', f'{np.abs(tonp(P)).max()}')
    ctx.note('near_double' if double else 'near_single')
    ctx.note('negative_z', int(z < 0))
    ctx.note('evanescent', int(evan.any()))
    lead = ctx.choice([(), (2,), (2, 3)])
    x = field(ctx, sh, lead)
    w = t.as_tensor(x, dtype=dt)
    out = pr.near_field(w, P)
    ctx.close(out, ref.near(x, tonp(P)), 'near_field', rtol=1e-10 if double else 2e-5)
    back = pr.inverse_near_field(out, P)
    ctx.close(back, ref.near(x, np.abs(tonp(P)) ** 2), 'inverse_near_field', rtol=1e-10 if double else 2e-5)
    if not evan.any():
        ctx.close(back, x, 'near_inverse', rtol=1e-9 if double else 3e-4)
        ctx.close((out.abs() ** 2).sum((-1, -2)), (np.abs(x) ** 2).sum((-1, -2)), 'near_energy',
                  rtol=1e-9 if double else 1e-3)
        # distances add, and minus z undoes z
        if double and sure.all():
            z2 = float(z * ctx.uniform(-0.9, 1.5))
            if z2 != 0 and z + z2 != 0:
                P2 = pr.generate_angular_spectrum_propagator(sh, spx, wl, z2, **kw)
                P3 = pr.generate_angular_spectrum_propagator(sh, spx, wl, z + z2, **kw)
                ctx.close(pr.near_field(out, P2), tonp(pr.near_field(w, P3)), 'additive', rtol=1e-6)
            Pm = pr.generate_angular_spectrum_propagator(sh, spx, wl, -z, **kw)
            ctx.close(pr.near_field(out, Pm), x, 'minus_z_undoes', rtol=1e-6)
    ctx.sig('near', sh, dt, z > 0, lead, evan.any())
    ctx.sample(shape=sh, wavelength=wl, spacing=sp, z=z)


def generalized(ctx):
    sh = shape_of(ctx, 2, 20)
    wl = 10 ** ctx.uniform(-10, -7)
    ax = gen.rot(ctx.rng.normal(size=3), ctx.uniform(0, np.pi)) if ctx.flip(0.8) else np.eye(3)
    a = wl * 10 ** ctx.uniform(0.0, 2)
    shear = ctx.uniform(-0.4, 0.4) if ctx.flip() else 0
    basis = ax @ np.array([[0, -1], [-1, shear], [0, 0]]) * np.array([a, a * ctx.uniform(0.7, 1.5)])
    if ctx.flip():
        basis = basis[:, ::-1].copy()
    n = gen.unit(np.cross(basis[:, 0], basis[:, 1])) * ctx.choice([1, -1])
    d = wl * 10 ** ctx.uniform(-0.5, 2.5)
    off = d * gen.unit(n + ctx.uniform(0, 0.7) * gen.unit(ctx.rng.normal(size=3)))
    mode = ctx.choice(['plain', 'carrier', 'along', 'backward'])
    kw, prop = {}, None
    if mode in ('carrier', 'backward'):
        prop = gen.unit(n + ctx.uniform(0, 0.7) * gen.unit(ctx.rng.normal(size=3))) * ctx.uniform(0.3, 3)
        if mode == 'backward':
            prop = prop * -1
        kw = dict(propagation_vector=prop)
    elif mode == 'along':
        kw = dict(propagate_along_offset=True)
        prop = off
    if mode != 'plain' and ctx.flip(0.3) and mode != 'along':
        kw['propagation_vector'] = t.as_tensor(prop)
    out_dt = ctx.choice([None, t.complex64, t.complex128])
    args = ()
    if out_dt is not None:
        if ctx.flip():
            args = (out_dt,)
            P = None
        kw['dtype'] = out_dt
    arg_basis = t.as_tensor(basis) if ctx.flip() else basis
    arg_off = t.as_tensor(off) if ctx.flip() else off
    ctx.param(sh=sh, wl=wl, basis=basis, off=off, prop=prop, mode=mode)
    P = pr.generate_generalized_angular_spectrum_propagator(sh, arg_basis, wl, arg_off, **kw)
    want = ref.tilted_angular_spectrum(sh, basis, wl, off, prop)
    if prop is not None and prop @ off < 0:
        # back propagation: evanescent waves decay all the same
        want = np.where(np.abs(want) > 1 + 1e-9, 1 / np.conj(want), want)
        ctx.note('backward_offset')
    amp = np.abs(want)
    want_ok = np.isfinite(want)
    # leave out the waves close to grazing incidence
    dual = np.linalg.pinv(basis).T
    k0 = 2 * np.pi / wl
    fi, fj = ref.phase_freqs(sh[0]) / sh[0], ref.phase_freqs(sh[1]) / sh[1]
    K = 2 * np.pi * (dual[:, 0][:, None, None] * fi[None, :, None] + dual[:, 1][:, None, None] * fj[None, None, :])
    if prop is not None:
        kc = k0 * gen.unit(prop)
        K = K + (kc - (kc @ n) * n)[:, None, None]
    g = np.abs(1 - (K ** 2).sum(0) / k0 ** 2)
    sure = (g > 1e-4) & want_ok
    if mode in ('carrier', 'along', 'backward'):
        ctx.note('carrier')
    ctx.note('generalized')
    ctx.note('evanescent', int((amp < 1 - 1e-6).any()))
    rt = 2e-7 if tonp(P).dtype == np.complex128 else 2e-6
    ctx.close(tonp(P)[sure], want[sure], 'generalized', rtol=rt, scale=1, msg=mode)
    ctx.expect(P.dtype == (out_dt or t.complex128), 'propagator_dtype', str(P.dtype))
    ctx.expect(np.all(np.abs(tonp(P)) <= 1 + 1e-5), 'no_amplification', f'{np.abs(tonp(P)).max()}')
    ctx.sig('gen', sh, mode, shear != 0)


def consistent(ctx):
    """The two generators agree, and a plane wave which the grid resolves keeps its shape and
    gains the exact phase"""
    sh = shape_of(ctx, 3, 20)
    wl = 10 ** ctx.uniform(-10, -7)
    sp = wl * np.array([ctx.uniform(1, 30), ctx.uniform(1, 30)])
    z = wl * 10 ** ctx.uniform(0, 3)
    P = pr.generate_angular_spectrum_propagator(sh, tuple(sp), wl, z, dtype=t.complex128)
    basis = np.array([[0, -sp[1]], [-sp[0], 0], [0, 0]])
    G = pr.generate_generalized_angular_spectrum_propagator(sh, basis, wl, np.array([0, 0, z]))
    ctx.close(P, tonp(G), 'generators_agree', rtol=1e-9)
    m = [int(ctx.choice(list(ref.phase_freqs(k)))) for k in sh]
    I, J = np.meshgrid(*[np.arange(k) for k in sh], indexing='ij')
    x = np.exp(2j * np.pi * (m[0] * I / sh[0] + m[1] * J / sh[1]))
    k2 = (2 * np.pi * m[0] / sh[0] / sp[0]) ** 2 + (2 * np.pi * m[1] / sh[1] / sp[1]) ** 2
    k0 = 2 * np.pi / wl
    if k2 < 0.99 * k0 ** 2:
        out = pr.near_field(t.as_tensor(x), P)
        ctx.close(out, x * np.exp(1j * z * (np.sqrt(k0 ** 2 - k2) - k0)), 'plane_wave', rtol=1e-8)
        ctx.note('plane_wave')
    ctx.sig('cons', sh)


def high_na(ctx):
    det_shape = shape_of(ctx, 3, 20)
    sh = shape_of(ctx, 3, 20) if ctx.flip(0.3) else det_shape
    wl = 10 ** ctx.uniform(-10, -8)
    dist = ctx.uniform(0.05, 1)
    half = dist * ctx.uniform(0.02, 0.5)
    tilt = gen.rot(ctx.rng.normal(size=3), ctx.uniform(0, 0.3)) if ctx.flip(0.6) else None
    db = gen.det_basis(2 * half / det_shape[0], 2 * half / det_shape[1] * ctx.uniform(0.7, 1.3), tilt)
    sb = gen.exit_wave_basis(db, det_shape, wl, dist)
    if ctx.flip(0.7):
        n = gen.rot(ctx.rng.normal(size=3), ctx.uniform(0, 0.5)) @ np.array([0, 0, 1.])
        n_ew = gen.unit(np.cross(sb[:, 1], sb[:, 0]))
        sb = np.stack([b - n_ew * (n @ b) / (n @ n_ew) for b in sb.T], axis=1)
    lens = ctx.flip(0.3)
    as_t = ctx.flip()
    conv = (lambda v: t.as_tensor(v)) if as_t else (lambda v: v)
    kw = dict(dtype=t.float64) if ctx.flip() else {}
    km, im = pr.generate_high_NA_k_intensity_map(conv(sb), conv(db), det_shape,
                                                 conv(np.float64(dist)) if as_t else dist,
                                                 conv(np.float64(wl)) if as_t else wl, lens=lens, **kw)
    f, amp = ref.high_na_map(sb, db, det_shape, dist, wl, lens)
    ctx.param(sh=sh, det_shape=det_shape, wl=wl, dist=dist, lens=lens)
    want = np.stack([2 * f[1], 2 * f[0]], axis=-1)
    ctx.close(km, want, 'k_map', rtol=3e-6)
    ctx.close(im, amp, 'intensity_map', rtol=3e-6)
    ctx.expect(float(im.max()) <= 1 + 1e-5, 'intensity_map', 'amplifies')
    lead = ctx.choice([(), (2,), (3, 2)])
    x = field(ctx, sh, lead)
    double = bool(kw)
    w = t.as_tensor(x, dtype=t.complex128 if double else t.complex64)
    use = ctx.flip(0.8)
    got = pr.high_NA_far_field(w, km, intensity_map=im if use else None)
    far_ = ref.ff(x)
    y = tonp(km)[..., 1].astype(float) * sh[0] / 2 + (sh[0] - 1) / 2
    xx = tonp(km)[..., 0].astype(float) * sh[1] / 2 + (sh[1] - 1) / 2
    wantf = ref.bilinear(far_, y, xx) * (amp if use else 1)
    ctx.close(got, wantf, 'high_na_far_field', rtol=2e-4 if not double else 2e-6, scale=np.abs(far_).max(),
              msg=f'{lead} {sh} {det_shape}')
    ctx.note('high_na')
    ctx.note('lens', int(lens))
    ctx.sig('na', sh, det_shape, lens, lead, tilt is not None)
    # At a small numerical aperture the correction vanishes
    db2 = gen.det_basis(1e-6, 1e-6)
    sb2 = gen.exit_wave_basis(db2, det_shape, wl, 1.0)
    km2, im2 = pr.generate_high_NA_k_intensity_map(sb2, db2, det_shape, 1.0, wl)
    y = field(ctx, det_shape)
    w2 = t.as_tensor(y, dtype=t.complex64)
    ctx.close(pr.high_NA_far_field(w2, km2, im2), ref.ff(y), 'low_na_limit', rtol=1e-4)


WORKLOADS = {'far': (far, 300, 4000), 'near': (near, 900, 10000), 'generalized': (generalized, 400, 8000),
             'consistent': (consistent, 150, 2000), 'high_na': (high_na, 250, 4000)}
