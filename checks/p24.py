"""P24: shifting, registering, centering, upsampling and convolving images."""
import numpy as np, torch as t
from cdtools.tools import image_processing as ip
from vf import gen
from vf.core import tonp

RULE = ('random images of even and odd shapes, real and complex, single and double precision, with shifts, kernels and factors of '
        'all signs and sizes, compared with direct evaluation of the Fourier series; distinct by shape and options')
ASSUMPTIONS = ['registration uses windows of 30 pixels, so images have at least 32',
               'the registration of two images maps the second onto the first, as the analysis functions use it']
# Cases of the quick tier, relative to the numbers below
QUICK = 2
REQUIRE = {'shift': 200, 'shift_integer': 60, 'registered': 120, 'registered_subpixel': 60, 'wrapped': 25, 'around': 40, 'convolved': 150,
           'upsampled': 150, 'centered': 100, 'centroid': 200, 'hann': 50, 'gradients': 20}


def C(rng, *sh):
    return rng.normal(size=sh) + 1j * rng.normal(size=sh)


def prec(ctx):
    return (np.complex64, 3e-5) if ctx.flip(0.7) else (np.complex128, 3e-6)


def freqs(n):
    """signed, the lowest one for even numbers of pixels is negative"""
    return (np.arange(n) - n // 2) / n


def series(im, y, x):
    """The values of the Fourier series of the image at the positions y, x"""
    h, w = im.shape[-2:]
    Ey = np.exp(2j * np.pi * np.outer(y, freqs(h)))
    Fy = np.exp(-2j * np.pi * np.outer(freqs(h), np.arange(h))) / h
    Ex = np.exp(2j * np.pi * np.outer(x, freqs(w)))
    Fx = np.exp(-2j * np.pi * np.outer(freqs(w), np.arange(w))) / w
    return (Ey @ Fy) @ im @ (Ex @ Fx).T


def shift(ctx):
    h, w = ctx.integer(2, 24), ctx.integer(2, 24)
    dt, eps = prec(ctx)
    real = ctx.flip(0.3)
    x = C(ctx.rng, h, w) * 10. ** ctx.uniform(-3, 3)
    x = x.real.astype(dt(0).real.dtype) if real else x.astype(dt)
    kind = ctx.choice(['real', 'real', 'integer', 'large', 'zero', 'half'])
    s = {'real': lambda: ctx.rng.uniform(-4, 4, 2), 'integer': lambda: ctx.rng.integers(-2 * h, 2 * h, 2).astype(float),
         'large': lambda: ctx.rng.uniform(-60, 60, 2), 'zero': lambda: np.zeros(2), 'half': lambda: ctx.rng.integers(-4, 4, 2) + 0.5}[kind]()
    form = ctx.choice(['tuple', 'array', 'tensor'])
    S = {'tuple': tuple(float(v) for v in s), 'array': s, 'tensor': t.as_tensor(s)}[form]
    ctx.param(shape=[h, w], shift=s.tolist(), form=form, real=real, dtype=str(dt))
    got = tonp(ip.sinc_subpixel_shift(t.as_tensor(x), S))
    z = x.astype(np.complex128)
    want = series(z, np.arange(h) - s[0], np.arange(w) - s[1])
    top = np.abs(z).max()
    tol = eps * top * (1 + np.abs(s).max() / 5) * 3
    ctx.close(got, want, 'shift_value', rtol=0, atol=tol)
    if kind in ('integer', 'zero'):
        ctx.close(got, np.roll(z, s.astype(int), (0, 1)), 'shift_integer', rtol=0, atol=tol)
        ctx.note('shift_integer')
    ctx.close(np.sum(np.abs(got) ** 2), np.sum(np.abs(z) ** 2), 'shift_energy', rtol=20 * eps)
    back = tonp(ip.sinc_subpixel_shift(t.as_tensor(got), tuple(-s)))
    ctx.close(back, z, 'shift_inverse', rtol=0, atol=2 * tol)
    if ctx.flip(0.2) and not real:
        # the gradient is that of a unitary operation
        X = t.as_tensor(x).requires_grad_()
        g = C(ctx.rng, h, w).astype(dt)
        ip.sinc_subpixel_shift(X, S).backward(t.as_tensor(g))
        ctx.close(tonp(X.grad), series(g.astype(np.complex128), np.arange(h) + s[0], np.arange(w) + s[1]), 'shift_gradient', rtol=0,
                  atol=eps * np.abs(g).max() * (1 + np.abs(s).max() / 5) * 3)
        ctx.note('gradients')
    ctx.note('shift')
    ctx.sig('shift', h, w, kind, form, real, str(dt))


def register(ctx):
    h, w = ctx.integer(32, 60), ctx.integer(32, 60)
    real = ctx.flip(0.4)
    x = C(ctx.rng, h, w) if ctx.flip(0.6) else gen.smooth_field(ctx.rng, (h, w)) + 0.05 * C(ctx.rng, h, w)
    if real:
        x = x.real
    kind = ctx.choice(['integer', 'subpixel', 'subpixel', 'wrapped'])
    if kind == 'integer':
        s = ctx.rng.integers(-9, 10, 2).astype(float)
    elif kind == 'wrapped':
        s = np.array([ctx.integer(-(h // 2), (h - 1) // 2), ctx.integer(-(w // 2), (w - 1) // 2)], float)
        ctx.note('wrapped')
    else:
        s = ctx.rng.uniform(-8, 8, 2)
    y = series(x.astype(complex), np.arange(h) - s[0], np.arange(w) - s[1])
    y = y * ctx.uniform(0.1, 5) * (1 if real else np.exp(1j * ctx.uniform(-3, 3)))
    if real:
        y = y.real
    noise = ctx.choice([0, 0, 0.05])
    if noise:
        y = y + noise * np.abs(y).mean() * (ctx.rng.normal(size=y.shape) if real else C(ctx.rng, h, w))
    dt = np.float32 if real else np.complex64
    X, Y = t.as_tensor(x.astype(dt)), t.as_tensor(y.astype(dt))
    res = ctx.choice([10, 10, 20, 50])
    ctx.param(shape=[h, w], shift=s.tolist(), kind=kind, resolution=res, real=real, noise=noise)
    pix = tonp(ip.find_pixel_shift(Y, X)).astype(float)
    wrap = lambda d: (d + np.array([h, w]) / 2) % np.array([h, w]) - np.array([h, w]) / 2
    if kind != 'subpixel':
        ctx.close(pix, s, 'pixel_shift', rtol=0, atol=0)
    else:
        ctx.expect(np.abs(wrap(pix - s)).max() <= 0.75, 'pixel_shift', lambda: f'{pix} {s}')
    got = tonp(ip.find_shift(Y, X, **({} if res == 10 and ctx.flip() else dict(resolution=res))))
    tol = 0.5 / res + 0.06 + noise
    if kind != 'subpixel':
        tol = 1e-6 if not noise else 1 / res + 1e-6
    ctx.expect(np.abs(wrap(got - s)).max() <= tol, 'find_shift', lambda: f'{got} {s} tolerance {tol}')
    ctx.close(got * res, np.round(got * res), 'resolution', rtol=0, atol=1e-3)
    # undoing it
    if kind == 'subpixel':
        ctx.note('registered_subpixel')
        k = np.round(s).astype(int)
        around = k + ctx.rng.integers(-3, 4, 2)
        S = t.as_tensor(around) if ctx.flip() else tuple(int(v) for v in around)
        g2 = tonp(ip.find_subpixel_shift(Y, X, search_around=S, resolution=res))
        ctx.expect(np.abs(g2 - s).max() <= tol, 'find_subpixel_shift', lambda: f'{g2} {s} around {around}')
        ctx.note('around')
    # antisymmetric
    g3 = tonp(ip.find_shift(X, Y, resolution=res))
    ctx.expect(np.abs(wrap(g3 + s)).max() <= tol, 'find_shift_reverse', lambda: f'{g3} {s}')
    ctx.note('registered')
    ctx.sig('register', h, w, kind, res, real, noise)


def convolve(ctx):
    h, w = ctx.integer(1, 14), ctx.integer(1, 14)
    dim = ctx.choice([0, 1, -1, -2])
    dt, eps = prec(ctx)
    real = ctx.flip(0.4)
    n = (h, w)[dim]
    x, k = C(ctx.rng, h, w), C(ctx.rng, n)
    if real:
        x, k = x.real, k.real
    cast = lambda v: t.as_tensor(v.astype(dt if not real else dt(0).real.dtype))
    sh = ctx.choice([None, True, False])
    kw = {} if sh is None else dict(fftshift_kernel=sh)
    if dim or ctx.flip():
        kw['dim'] = dim
    ctx.param(shape=[h, w], dim=dim, shifted=sh, real=real)
    got = tonp(ip.convolve_1d(cast(x), cast(k), **kw))
    off = 0 if sh is False else n // 2
    want = np.zeros((h, w), complex)
    for j in range(n):
        want += k[j] * np.roll(x, j - off, axis=dim)
    ctx.close(got, want, 'convolve', rtol=0, atol=20 * eps * (np.abs(k).sum() * np.abs(x).max()))
    ctx.note('convolved')
    ctx.sig('convolve', h, w, dim, sh, real, str(dt))


def upsample(ctx):
    h, w = ctx.integer(1, 12), ctx.integer(1, 12)
    batch = tuple(ctx.integer(1, 3) for _ in range(ctx.integer(0, 2)))
    dt, eps = prec(ctx)
    f = ctx.choice([None, 1, 2, 2, 3, 4])
    pm = ctx.choice([None, True, False])
    kw = {k: v for k, v in (('upsample_factor', f), ('preserve_mean', pm)) if v is not None}
    f = f or 2
    x = C(ctx.rng, *batch, h, w).astype(dt)
    ctx.param(shape=[*batch, h, w], factor=f, preserve_mean=pm)
    got = tonp(ip.fourier_upsample(t.as_tensor(x), **kw))
    ctx.expect(got.shape == batch + (f * h, f * w) and got.dtype == dt, 'upsample_shape', f'{got.shape}')
    # the central pixel stays the central pixel
    y = (np.arange(f * h) - f * h // 2) / f + h // 2
    z = (np.arange(f * w) - f * w // 2) / f + w // 2
    x = x.astype(np.complex128)
    # the zero of the Fourier series is the central pixel
    def centered(im):
        Ey = np.exp(2j * np.pi * np.outer(y - h // 2, freqs(h)))
        Fy = np.exp(-2j * np.pi * np.outer(freqs(h), np.arange(h) - h // 2)) / h
        Ex = np.exp(2j * np.pi * np.outer(z - w // 2, freqs(w)))
        Fx = np.exp(-2j * np.pi * np.outer(freqs(w), np.arange(w) - w // 2)) / w
        return (Ey @ Fy) @ im @ (Ex @ Fx).T
    want = centered(x) / (1 if pm else f)
    ctx.close(got, want, 'upsample_value', rtol=0, atol=10 * eps * np.abs(x).max())
    a, b = np.sum(np.abs(got) ** 2), np.sum(np.abs(x) ** 2) * (f ** 2 if pm else 1)
    ctx.close(a, b, 'upsample_energy', rtol=10 * eps)
    ctx.note('upsampled')
    ctx.sig('upsample', h, w, batch, f, pm, str(dt))


def center(ctx):
    h, w = ctx.integer(12, 30), ctx.integer(12, 30)
    batch = tuple(ctx.integer(1, 3) for _ in range(ctx.integer(0, 2)))
    sig = min(h, w) / ctx.uniform(ctx.choice([6, 9]), 14)
    cy, cx = h / 2 + ctx.uniform(-0.33, 0.33) * h, w / 2 + ctx.uniform(-0.33, 0.33) * w
    I, J = np.mgrid[:h, :w]
    env = np.exp(-((I - cy) ** 2 + (J - cx) ** 2) / (2 * sig ** 2))
    # smooth modes below a common envelope
    a = C(ctx.rng, *batch, 3)
    x = env * (a[..., 0, None, None] + 0.2 * a[..., 1, None, None] * (I - cy) / sig + 0.2 * a[..., 2, None, None] * (J - cx) / sig)
    dt, eps = prec(ctx)
    up = ctx.choice([None, True, False])
    kw = {} if up is None else dict(use_power=up)
    X = t.as_tensor(x.astype(dt))
    ctx.param(shape=[*batch, h, w], use_power=up, center=[cy, cx])
    got = tonp(ip.center(X, **kw)).astype(np.complex128)
    ctx.expect(got.shape == x.shape, 'center_shape', f'{got.shape}')
    p = np.abs(got.reshape(-1, h, w))
    p = (p if up is False else p ** 2).sum(0)
    c = np.array([(p * I).sum(), (p * J).sum()]) / p.sum()
    ctx.expect(np.abs(c - np.array([h, w]) / 2).max() < (0.02 if up is not False else 0.1), 'center_position', lambda: f'{c} {(h, w)}')
    # one common circular shift
    F, G = np.fft.fft2(x), np.fft.fft2(got)
    ctx.close(np.abs(G), np.abs(F), 'center_is_shift', rtol=0, atol=1e-4 * np.abs(F).max())
    flat, gf = x.reshape(-1, h, w), got.reshape(-1, h, w)
    q = (np.fft.fft2(gf) * np.fft.fft2(flat).conj()).sum(0)
    s = np.array([-np.angle(q[1, 0]) * h, -np.angle(q[0, 1]) * w]) / (2 * np.pi) - np.array([0, 0])
    s += np.angle(q[0, 0]) * np.array([h, w]) / (2 * np.pi)
    s = (s + np.array([h, w]) / 2) % np.array([h, w]) - np.array([h, w]) / 2
    for a, b in zip(flat, gf):
        ctx.close(b, series(a, np.arange(h) - s[0], np.arange(w) - s[1]), 'center_common', rtol=0,
                  atol=2e-3 * np.abs(flat).max())
    ctx.note('centered')
    ctx.sig('center', h, w, batch, up, str(dt))


def moments(ctx):
    dims = ctx.choice([1, 2, 2, 2, 3])
    sh = tuple(ctx.integer(1, 12) for _ in range(dims))
    batch = tuple(ctx.integer(1, 3) for _ in range(ctx.integer(0, 2)))
    dt = ctx.choice([np.float32, np.float64])
    eps = 2e-5 if dt is np.float32 else 1e-6
    x = ctx.rng.uniform(0, 1, batch + sh).astype(dt)
    kw = {} if dims == 2 and ctx.flip() else dict(dims=dims)
    ctx.param(shape=list(x.shape), dims=dims, dtype=str(dt))
    def want(p):
        out = []
        for k in range(dims):
            idx = np.arange(sh[k]).reshape((-1,) + (1,) * (dims - 1 - k))
            ax = tuple(range(-dims, 0))
            out.append((p * idx).sum(ax) / p.sum(ax))
        return np.stack(out, -1)
    got = tonp(ip.centroid(t.as_tensor(x), **kw))
    ctx.close(got, want(x.astype(float)), 'centroid', rtol=0, atol=eps * max(sh))
    ctx.close(tonp(ip.centroid_sq(t.as_tensor(x), **kw)), want(x.astype(float) ** 2), 'centroid_sq', rtol=0, atol=eps * max(sh))
    z = C(ctx.rng, *x.shape).astype(np.complex64 if dt is np.float32 else np.complex128)
    ctx.close(tonp(ip.centroid_sq(t.as_tensor(z), comp=True, **kw)), want(np.abs(z.astype(complex)) ** 2), 'centroid_sq', rtol=0, atol=eps * max(sh))
    ctx.note('centroid')
    if dims == 2 and min(sh) > 1:
        h, w = sh
        im = ctx.rng.normal(size=sh) + (1j * ctx.rng.normal(size=sh) if ctx.flip() else 0)
        T = ctx.flip()
        got = tonp(ip.hann_window(t.as_tensor(im) if T else im))
        win = (0.5 - 0.5 * np.cos(2 * np.pi * np.arange(h) / (h - 1)))[:, None] * (0.5 - 0.5 * np.cos(2 * np.pi * np.arange(w) / (w - 1)))
        ctx.close(got, im * win, 'hann', rtol=0, atol=1e-9 * np.abs(im).max() + 1e-12)
        ctx.note('hann')
    ctx.sig('moments', dims, sh, batch, str(dt))


WORKLOADS = {'shift': (shift, 600, 12000), 'register': (register, 350, 5000), 'convolve': (convolve, 500, 8000), 'upsample': (upsample, 500, 8000),
             'center': (center, 350, 6000), 'moments': (moments, 600, 8000)}
