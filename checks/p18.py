"""P18: coordinates keep their meaning between detector, exit wave, sample and stage."""
import numpy as np, torch as t
from vf import gen, ref
from vf.core import tonp
from cdtools import tools

RULE = ('random detector bases (tilted, sheared, rectangular pixels), sample orientations and '
        'positions through every coordinate conversion, compared with float64 vector algebra and '
        'with the inverse conversions; distinct by shapes, tilts and precision')
ASSUMPTIONS = ['surface normals are at most 60 degrees from the beam']
# Cases of the quick tier, relative to the numbers below
QUICK = 3
REQUIRE = {'exit_wave': 100, 'grating': 100, 'pixels': 150, 'tilted_sample': 60, 'projected': 80,
           'object_setup': 100, 'sub_pixel_range': 80}
I_, N_ = tools.interactions, tools.initializers


def basis_of(ctx):
    tilt = gen.rot(ctx.rng.normal(size=3), ctx.uniform(0, 0.5)) if ctx.flip() else None
    b = gen.det_basis(ctx.uniform(5e-6, 1e-4), ctx.uniform(5e-6, 1e-4), tilt)
    if ctx.flip(0.3):
        b[:, 0] += ctx.uniform(-0.4, 0.4) * b[:, 1]
    if ctx.flip(0.3):
        b = b[:, ::-1].copy()
    if ctx.flip(0.3):
        b[:, ctx.integer(0, 1)] *= -1
    return b


def exit_wave(ctx):
    b = basis_of(ctx)
    shape = (ctx.integer(1, 40), ctx.integer(1, 40))
    wl, dist = 10 ** ctx.uniform(-11, -7), ctx.uniform(0.05, 5)
    double = ctx.flip()
    dt = t.float64 if double else t.float32
    conv = ctx.choice([lambda v: t.as_tensor(np.asarray(v), dtype=dt), lambda v: v]) if double else \
        (lambda v: t.as_tensor(np.asarray(v), dtype=dt))
    sh = ctx.choice([shape, list(shape), t.Size(shape), np.array(shape)])
    ov = ctx.choice([1, 1, 2])
    got = N_.exit_wave_geometry(conv(b), sh, conv(wl), conv(dist))
    want = gen.exit_wave_basis(b, shape, wl, dist)
    rt = 1e-10 if double else 3e-5
    ctx.close(got, want, 'exit_wave_geometry', rtol=rt, msg=f'{shape} {b.tolist()}')
    ctx.note('exit_wave')
    # A grating with the momentum transfer of one pixel of the detector illuminates that pixel only
    m = [ctx.integer(-(k // 2), (k - 1) // 2) for k in shape]
    q = 2 * np.pi / (wl * dist) * (b @ np.array(m))
    x = np.stack(np.meshgrid(*[np.arange(k) for k in shape], indexing='ij'))
    r = np.tensordot(tonp(got).astype(float), x, axes=1)
    f = tools.propagators.far_field(t.as_tensor(np.exp(1j * np.tensordot(q, r, axes=1))))
    w = np.zeros(shape)
    w[m[0] + shape[0] // 2, m[1] + shape[1] // 2] = np.sqrt(np.prod(shape))
    ctx.close(f.abs(), w, 'grating', rtol=1e-6 if double else 5e-3)
    ctx.note('grating')
    ctx.sig(shape, double, b[2].any())


def pixels(ctx):
    b = gen.exit_wave_basis(basis_of(ctx), (ctx.integer(5, 300), ctx.integer(5, 300)),
                            10 ** ctx.uniform(-10, -8), ctx.uniform(0.1, 2))
    n = ctx.integer(1, 9)
    T = ctx.rng.normal(size=(n, 3)) * np.linalg.norm(b, axis=0).mean() * ctx.uniform(1, 50)
    double = ctx.flip()
    dt = t.float64 if double else t.float32
    # float64 positions of a basis in float32
    rt = 1e-10 if double else 1e-4
    tb, tt = t.as_tensor(b, dtype=dt), t.as_tensor(T, dtype=dt)
    normal = np.array([0, 0, 1.])
    kw = {}
    if ctx.flip(0.7):
        normal = gen.rot(np.array([ctx.rng.normal(), ctx.rng.normal(), 0.1]), ctx.uniform(0.02, 0.9)) @ normal
        if ctx.flip(0.3):
            normal = normal * ctx.choice([2.0, -1.0])
        kw['surface_normal'] = t.as_tensor(normal, dtype=dt)
        ctx.note('tilted_sample')
    want = gen.trans_to_pix(b, T, normal)
    if kw and double:
        # the projection is built from a normal in the precision which was given
        pass
    got = I_.translations_to_pixel(tb, tt, **kw)
    ctx.close(got, want, 'translations_to_pixel', rtol=rt, msg=f'normal {normal}')
    ctx.expect(got.dtype == dt, 'pixel_dtype', str(got.dtype))
    one = I_.translations_to_pixel(tb, tt[0], **kw)
    ctx.close(one, want[0], 'single_position', rtol=rt, scale=np.abs(want).max())
    # precisions can be mixed
    for a, c in ((t.float32, t.float64), (t.float64, t.float32)):
        ctx.close(I_.translations_to_pixel(t.as_tensor(b, dtype=a), t.as_tensor(T, dtype=c), **kw), want, 'mixed_precision', rtol=1e-4)
    # the height of the stage does not matter, the positions are linear
    T2 = T.copy()
    T2[:, 2] += ctx.uniform(-1, 1)
    ctx.close(I_.translations_to_pixel(tb, t.as_tensor(T2, dtype=dt), **kw), want, 'height_independent',
              rtol=rt)
    # and back
    rt2 = 1e-4 if double and not kw else 1e-3
    P = ctx.rng.normal(size=(n, 2)) * 30
    tr = I_.pixel_to_translations(tb, t.as_tensor(P, dtype=dt), **kw)
    # exactly the stage positions with no height
    A = gen.trans_to_pix(b, np.eye(3)[:2], normal).T
    back = np.zeros((n, 3))
    back[:, :2] = P @ np.linalg.inv(A).T
    ctx.close(tr, back, 'pixel_to_translations', rtol=rt2, msg=f'normal {normal}')
    ctx.close(I_.translations_to_pixel(tb, tr, **kw), P, 'pixel_round_trip', rtol=rt2)
    ctx.close(I_.pixel_to_translations(tb, t.as_tensor(P[0], dtype=dt), **kw), back[0],
              'single_position', rtol=rt2, scale=np.abs(back).max())
    r = tonp(I_.pixel_to_translations(tb, got, **kw)).astype(float)
    ctx.close(r, T * [1, 1, 0], 'stage_round_trip', rtol=rt2)
    ctx.note('pixels')
    ctx.sig(double, bool(kw), n, b[2].any())


def projected(ctx):
    ew = gen.exit_wave_basis(basis_of(ctx), (ctx.integer(5, 100), ctx.integer(5, 100)),
                             10 ** ctx.uniform(-10, -8), ctx.uniform(0.1, 2))
    n_s = gen.rot(np.array([ctx.rng.normal(), ctx.rng.normal(), 0.1]), ctx.uniform(0.0, 0.9)) @ np.array([0, 0, 1.])
    n_ew = gen.unit(np.cross(ew[:, 1], ew[:, 0]))
    sb = np.stack([v - n_ew * (n_s @ v) / (n_s @ n_ew) for v in ew.T], axis=1)
    n = ctx.integer(1, 9)
    T = ctx.rng.normal(size=(n, 3)) * np.linalg.norm(sb, axis=0).mean() * ctx.uniform(1, 50)
    double = ctx.flip()
    dt = t.float64 if double else t.float32
    sbt, tt = t.as_tensor(sb, dtype=dt), t.as_tensor(T, dtype=dt)
    pix, prop = I_.project_translations_to_sample(sbt, tt)
    nn = np.cross(sb[:, 1], sb[:, 0])
    X = T.copy()
    X[:, 2] = -(nn[0] * T[:, 0] + nn[1] * T[:, 1]) / nn[2]
    rt = 1e-8 if double else 3e-4
    ctx.close(pix, X @ np.linalg.pinv(sb).T, 'sample_position', rtol=rt)
    ctx.close(prop, (X[:, 2] - T[:, 2])[:, None], 'propagation', rtol=rt, scale=np.abs(X).max())
    # position on the sample plus propagation along the beam is the position of the probe
    R = tonp(pix).astype(float) @ sb.T - tonp(prop).astype(float) * [0, 0, 1.]
    ctx.close(R, T, 'projection_consistent', rtol=rt)
    p1, q1 = I_.project_translations_to_sample(sbt, tt[0])
    ctx.close(p1, tonp(pix)[0], 'single_position', rtol=rt, scale=np.abs(tonp(pix)).max())
    ctx.close(q1, tonp(prop)[0], 'single_position', rtol=rt, scale=np.abs(X).max())
    for a, c in ((t.float32, t.float64), (t.float64, t.float32)):
        p2, q2 = I_.project_translations_to_sample(t.as_tensor(sb, dtype=a), t.as_tensor(T, dtype=c))
        ctx.close(p2, X @ np.linalg.pinv(sb).T, 'mixed_precision', rtol=3e-4)
        ctx.close(q2, (X[:, 2] - T[:, 2])[:, None], 'mixed_precision', rtol=3e-4, scale=np.abs(X).max())
    ctx.note('projected')
    ctx.sig(double, n)


def object_setup(ctx):
    n = ctx.integer(1, 12)
    P = (ctx.rng.uniform(-1, 1, (n, 2)) * ctx.uniform(0.2, 40) + ctx.rng.uniform(-300, 300, 2)).astype(np.float32)
    if ctx.flip(0.3):
        P = np.round(P)
    pad = ctx.choice([0, 0, 1, 5, 200])
    psh = (ctx.integer(1, 30), ctx.integer(1, 30))
    tp = t.as_tensor(P)
    shape, mn = N_.calc_object_setup(ctx.choice([psh, list(psh), t.Size(psh)]), tp, padding=pad)
    ctx.equal(mn, P.min(0) - np.float32(pad), 'object_origin')
    rel = tonp(tp - mn)
    # every window lies on the object, with the padding on all sides
    lo, hi = np.floor(rel).min(0), (np.ceil(rel) + psh).max(0)
    ctx.expect((lo >= pad - bool(pad)).all() and (hi <= np.array(shape) - pad + (1 if pad else 0)).all(), 'windows_fit',
               f'{lo} {hi} {tuple(shape)} padding {pad}')
    ctx.expect((np.array(shape) <= hi - lo + 2 * pad + 1).all(), 'object_not_larger', f'{tuple(shape)} {lo} {hi}')
    ctx.expect(isinstance(shape, t.Size), 'object_shape', str(type(shape)))
    ctx.equal(tuple(int(x) for x in shape), np.ceil(P.max(0) - P.min(0)).astype(int) + psh + 2 * pad, 'object_shape')
    ctx.note('object_setup')
    ctx.note('sub_pixel_range', int((P != np.round(P)).any()))
    ctx.sig(n, pad, psh)


WORKLOADS = {'exit_wave': (exit_wave, 300, 6000), 'pixels': (pixels, 300, 6000),
             'projected': (projected, 200, 4000), 'object_setup': (object_setup, 250, 5000)}
