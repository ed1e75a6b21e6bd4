"""Generators of valid inputs. Everything is driven by the random generator of the case, and the
geometry is computed here (in float64) and not by cdtools."""
import numpy as np
import torch as t


def unit(v):
    v = np.asarray(v, dtype=np.float64)
    return v / np.linalg.norm(v)


def det_basis(p_row, p_col, tilt=None):
    """3x2, columns are the steps along the rows and the columns of the pattern. The default is
    the CXI convention for a detector perpendicular to z."""
    b = np.array([[0, -p_col], [-p_row, 0], [0, 0]], dtype=np.float64)
    if tilt is not None:
        b = tilt @ b
    return b


def rot(axis, ang):
    axis = unit(axis)
    K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return np.eye(3) + np.sin(ang) * K + (1 - np.cos(ang)) * (K @ K)


def exit_wave_basis(basis, shape, wavelength, distance):
    """Far-field sampling: conjugate basis of the detector's full extent"""
    full = np.asarray(basis, dtype=np.float64) * np.array(shape, dtype=np.float64)
    return np.linalg.pinv(full).T * wavelength * distance


def pix_to_trans(basis, pix, normal=(0, 0, 1.)):
    """Sample-plane position (x, y and the z which keeps it on the sample surface is dropped)"""
    v = np.asarray(pix, dtype=np.float64) @ np.asarray(basis, dtype=np.float64).T
    return v


def trans_to_pix(basis, trans, normal=(0, 0, 1.)):
    T = np.asarray(trans, dtype=np.float64)
    n = np.asarray(normal, dtype=np.float64)
    v = T.copy()
    v[..., 2] = -(n[0] * T[..., 0] + n[1] * T[..., 1]) / n[2]
    return v @ np.linalg.pinv(np.asarray(basis, dtype=np.float64)).T


def smooth_field(rng, shape, sigma=None, amp=1.0, offset=0.0):
    """Band-limited complex field"""
    f = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    fy = np.fft.fftfreq(shape[-2])[:, None]
    fx = np.fft.fftfreq(shape[-1])[None, :]
    s = 0.15 if sigma is None else sigma
    g = np.fft.ifft2(np.fft.fft2(f) * np.exp(-(fx ** 2 + fy ** 2) / (2 * s ** 2)))
    g = g / np.sqrt(np.mean(np.abs(g) ** 2))
    return offset + amp * g


class Spec:
    """The ingredients of a generated dataset, in float64"""
    pass


def make_spec(rng, n=None, shape=None, extent=6.0, wavelength=None, distance=None,
              p_row=None, p_col=None, integer_like=False, z=False, basis_tilt=False,
              min_side=10, max_side=22, peak=None):
    s = Spec()
    s.n = int(n if n is not None else rng.integers(3, 12))
    if shape is None:
        shape = (int(rng.integers(min_side, max_side + 1)), int(rng.integers(min_side, max_side + 1)))
    s.shape = tuple(shape)
    s.wavelength = float(wavelength or 10 ** rng.uniform(-10, -8.5))
    s.distance = float(distance or rng.uniform(0.2, 3))
    s.p_row = float(p_row or rng.uniform(10e-6, 80e-6))
    s.p_col = float(p_col or rng.uniform(10e-6, 80e-6))
    tilt = None
    if basis_tilt:
        tilt = rot(rng.normal(size=3), rng.uniform(0.02, 0.3))
    s.basis = det_basis(s.p_row, s.p_col, tilt)
    s.obj_basis = exit_wave_basis(s.basis, s.shape, s.wavelength, s.distance)
    s.pix = rng.uniform(0, extent, (s.n, 2))
    s.translations = pix_to_trans(s.obj_basis, s.pix)
    if not z:
        s.translations[:, 2] = 0
    else:
        s.translations[:, 2] = rng.normal(size=s.n) * 1e-6
    # patterns: a central blob with Poisson noise
    I = np.arange(s.shape[0])[:, None] - s.shape[0] / 2
    J = np.arange(s.shape[1])[None, :] - s.shape[1] / 2
    blob = np.exp(-(I ** 2 / (0.03 * s.shape[0] ** 2) + J ** 2 / (0.03 * s.shape[1] ** 2)) / 2)
    peak = peak or 10 ** rng.uniform(2, 4)
    s.patterns = rng.poisson(peak * (blob[None] * rng.uniform(0.5, 1.5, (s.n, 1, 1)) *
                                     rng.uniform(0.4, 1.0, (s.n,) + s.shape)) + 2.0).astype(np.float32)
    s.mask = None
    s.background = None
    s.qe_mask = None
    s.intensities = None
    s.entry_info = None
    s.sample_info = None
    s.corner = None
    s.axes = ['x', 'y', 'z']
    return s


def decorate(rng, s, mask=None, background=None, qe_mask=None, intensities=None,
             orientation=None):
    """Each of the options: True, False or None (random)"""
    def on(x, p=0.5):
        return bool(rng.random() < p) if x is None else bool(x)
    if on(mask):
        s.mask = rng.random(s.shape) > 0.12
    if on(background):
        s.background = rng.uniform(0, 3, s.shape).astype(np.float32)
    if on(qe_mask):
        s.qe_mask = rng.uniform(0.5, 1.0, s.shape).astype(np.float32)
    if on(intensities):
        s.intensities = rng.uniform(0.5, 2.0, s.n).astype(np.float32)
    if on(orientation, 0.3):
        n = rot(rng.normal(size=3), rng.uniform(0.0, 0.5)) @ np.array([0, 0, 1.])
        x = unit(np.cross([0, 1., 0], n))
        y = unit(np.cross(n, x))
        s.sample_info = {'orientation': np.array([x, y, n])}
    return s


def build(s, cls=None, extra=None):
    from cdtools.datasets import Ptycho2DDataset
    cls = cls or Ptycho2DDataset
    # scalars and arrays of any type which describe the same
    v = getattr(s, 'vary', {})
    num = {'float32': np.float32, 'float': float, 'float64': np.float64, 'array': lambda x: np.array(x, dtype=np.float64),
           'tensor': lambda x: t.tensor(x, dtype=t.float32), 'tensor64': lambda x: t.tensor(x, dtype=t.float64)}
    arr = {'tensor': lambda x: t.as_tensor(x, dtype=t.float32), 'tensor64': lambda x: t.as_tensor(np.array(x), dtype=t.float64),
           'numpy': lambda x: np.array(x, dtype=np.float32), 'numpy64': lambda x: np.array(x, dtype=np.float64),
           'fortran': lambda x: np.asfortranarray(np.array(x, dtype=np.float64)), 'list': lambda x: np.asarray(x).tolist()}
    img = {k: arr[k] for k in arr if k != 'list'}
    geo = {'distance': num[v.get('distance', 'float32')](s.distance), 'basis': img[v.get('basis', 'tensor')](s.basis),
           'corner': None if s.corner is None else img[v.get('corner', 'tensor')](s.corner)}
    image = lambda k: None if getattr(s, k) is None else img[v[k]](getattr(s, k)) if k in v else getattr(s, k).copy()
    return cls(np.asarray(s.translations, dtype=getattr(s, 'pos_type', 'float32')), s.patterns.astype(getattr(s, 'raw_type', s.patterns.dtype)), axes=list(s.axes),
               intensities=image('intensities'),
               wavelength=num[v.get('wavelength', 'float32')](s.wavelength), detector_geometry=geo,
               mask=None if s.mask is None else s.mask.copy(),
               background=image('background'),
               qe_mask=image('qe_mask'),
               entry_info=s.entry_info, sample_info=s.sample_info)


def vary(ctx, s):
    """The ingredients in other types than those which are read from files"""
    n, a = ['float32', 'float', 'float64', 'array', 'tensor', 'tensor64'], ['tensor', 'tensor64', 'numpy', 'numpy64', 'fortran']
    s.vary = {'wavelength': ctx.choice(n), 'distance': ctx.choice(n), 'basis': ctx.choice(a), 'corner': ctx.choice(a)}
    for k in ('background', 'qe_mask', 'intensities'):
        if ctx.flip():
            s.vary[k] = ctx.choice(a)
    s.pos_type = ctx.choice(['float32', 'float64'])
    ctx.note('varied_types')


def small_dataset(rng, cls=None, n=7, shape=None, extent=6.0, **dec):
    s = make_spec(rng, n=n, shape=shape, extent=extent)
    for k in ('mask', 'background', 'qe_mask', 'intensities', 'orientation'):
        dec.setdefault(k, False)
    decorate(rng, s, **dec)
    return s, build(s, cls)


def snapshot_dataset(d):
    """Everything observable of a dataset, as plain numpy"""
    from vf.core import tonp
    def conv(x):
        if x is None:
            return None
        if isinstance(x, dict):
            return {k: conv(v) for k, v in x.items()}
        if isinstance(x, t.Tensor):
            return (str(x.dtype), tonp(x).copy())
        if isinstance(x, np.ndarray):
            return (str(x.dtype), x.copy())
        if isinstance(x, (list, tuple)):
            return [conv(v) for v in x]
        return x
    keys = ['entry_info', 'sample_info', 'wavelength', 'detector_geometry', 'mask', 'qe_mask',
            'background', 'translations', 'patterns', 'intensities', 'axes', 'get_as_args']
    return {k: conv(getattr(d, k, None)) for k in keys}


def same_snapshot(a, b):
    """-> list of the differing keys"""
    def eq(x, y):
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], np.ndarray):
            return isinstance(y, tuple) and x[0] == y[0] and x[1].shape == y[1].shape and \
                np.array_equal(x[1], y[1], equal_nan=x[1].dtype.kind in 'fc')
        if isinstance(x, dict):
            return isinstance(y, dict) and x.keys() == y.keys() and all(eq(x[k], y[k]) for k in x)
        if isinstance(x, (list, tuple)):
            return isinstance(y, (list, tuple)) and len(x) == len(y) and \
                all(eq(p, q) for p, q in zip(x, y))
        if isinstance(x, float) and isinstance(y, float) and x != x and y != y:
            return True
        r = (x == y)
        return bool(np.all(r)) and type(x) is type(y)
    return [k for k in sorted(set(a) | set(b)) if k not in a or k not in b or not eq(a[k], b[k])]


def snapshot_model(m):
    from vf.core import tonp
    s = {'sd:' + k: (str(v.dtype), tonp(v).copy()) for k, v in m.state_dict().items()}
    s['requires_grad'] = {k: p.requires_grad for k, p in m.named_parameters()}
    s['loss_history'] = [float(x) for x in m.loss_history]
    s['training_history'] = m.training_history
    s['epoch'] = m.epoch
    s['training'] = m.training
    s['normalizer'] = {k: (float(v) if isinstance(v, (int, float, t.Tensor)) else v)
                       for k, v in sorted(vars(getattr(m, 'loss_normalizer', None) or
                                               type('x', (), {})()).items())}
    return s
