"""Float64 reference implementations, written from the definitions and independent of cdtools and
of torch."""
import numpy as np

PI = np.pi


def ff(x):
    return np.fft.fftshift(np.fft.fft2(np.fft.ifftshift(x, axes=(-2, -1)), norm='ortho'), axes=(-2, -1))


def iff(x):
    return np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(x, axes=(-2, -1)), norm='ortho'), axes=(-2, -1))


def fft_pad(x, shape):
    """Centered zero padding to `shape` as cdtools does for Fourier cropped probes: the excess
    is split as floor on the leading side"""
    ph, pw = shape[0] - x.shape[-2], shape[1] - x.shape[-1]
    w = [(0, 0)] * (x.ndim - 2) + [(ph // 2, ph - ph // 2), (pw // 2, pw - pw // 2)]
    return np.pad(x, w)


def phase_freqs(n):
    """Signed integer frequencies in unshifted order (the Nyquist frequency is negative)"""
    k = np.arange(n)
    k[k >= (n + 1) // 2] -= n
    return k


def sinc_shift(x, dy, dx):
    """Sub-pixel Fourier shift"""
    H, W = x.shape[-2:]
    ky, kx = phase_freqs(H), phase_freqs(W)
    ph = np.exp(-2j * PI * (ky[:, None] * dy / H + kx[None, :] * dx / W))
    return np.fft.ifft2(np.fft.fft2(x) * ph)


def tilted_angular_spectrum(shape, basis, wavelength, offset, propagation=None):
    """exp(i (k - k_ref) . offset) for the plane waves of a tilted grid, unshifted frequencies.
    `propagation` is the direction of the carrier wave (default: the normal, on the side of the
    offset), k_ref the carrier's wave vector"""
    basis = np.asarray(basis, dtype=np.float64)
    offset = np.asarray(offset, dtype=np.float64)
    k0 = 2 * PI / wavelength
    dual = np.linalg.pinv(basis).T
    fi = phase_freqs(shape[0]) / shape[0]
    fj = phase_freqs(shape[1]) / shape[1]
    K = 2 * PI * (dual[:, 0][:, None, None] * fi[None, :, None] +
                  dual[:, 1][:, None, None] * fj[None, None, :])
    n = np.cross(basis[:, 0], basis[:, 1])
    n = n / np.linalg.norm(n)
    ref = offset if propagation is None else np.asarray(propagation, dtype=np.float64)
    n = n * np.sign(n @ ref)
    if propagation is not None:
        kc = k0 * ref / np.linalg.norm(ref)
    else:
        kc = k0 * n
    K = K + (kc - (kc @ n) * n)[:, None, None]
    s2 = k0 ** 2 - (K ** 2).sum(0)
    koop = np.sqrt(s2.astype(complex))
    k = K + n[:, None, None] * koop
    d = k - kc[:, None, None]
    return np.exp(1j * np.tensordot(offset, d, axes=1))


def angular_spectrum(shape, spacing, wavelength, z):
    """Paraxial-free angular spectrum, with the plane wave phase removed"""
    k0 = 2 * PI / wavelength
    ky = 2 * PI * phase_freqs(shape[0]) / (shape[0] * spacing[0])
    kx = 2 * PI * phase_freqs(shape[1]) / (shape[1] * spacing[1])
    k2 = ky[:, None] ** 2 + kx[None, :] ** 2
    kz = np.sqrt((k0 ** 2 - k2).astype(complex))
    return np.exp(1j * z * (-k2 / (kz + k0)))


def near(x, prop):
    return np.fft.ifft2(prop * np.fft.fft2(x))


def pool(I, f):
    H, W = I.shape[-2] // f, I.shape[-1] // f
    return I[..., :H * f, :W * f].reshape(I.shape[:-2] + (H, f, W, f)).mean((-3, -1))


def finite_pixels(field, modes=True):
    """Intensity integrated over square pixels: the autocorrelation of the real space field is
    multiplied with a sinc (sampled on a grid of 2N points from -1 to 1), on a grid of twice the
    size"""
    H, W = field.shape[-2:]
    r = np.fft.fftshift(np.fft.ifft2(field), axes=(-2, -1))
    big = np.zeros(field.shape[:-2] + (2 * H, 2 * W), complex)
    big[..., H // 2:H // 2 + H, W // 2:W // 2 + W] = r
    # The zero frequency of r sits at (H//2, W//2), which ends up at (2*(H//2), ..) for odd sizes:
    # only a phase ramp of the field, the intensity is not affected.
    up = np.abs(np.fft.fft2(big)) ** 2
    if modes:
        up = up.sum(-3)
    ac = np.fft.fftshift(np.fft.ifft2(up), axes=(-2, -1))
    ys = np.arange(2 * H) / (2 * H - 1) * 2 - 1
    xs = np.arange(2 * W) / (2 * W - 1) * 2 - 1
    bl = np.fft.fft2(np.fft.ifftshift(ac * np.sinc(ys)[:, None] * np.sinc(xs)[None, :], axes=(-2, -1)))
    return np.abs(bl[..., ::2, ::2])


def measure(field, background, oversampling=1, finite=False, qe=None, saturation=None, eps=1e-7):
    I = finite_pixels(field) if finite else (np.abs(field) ** 2).sum(-3)
    if oversampling != 1:
        I = pool(I, oversampling)
    I = I + eps
    if qe is not None:
        I = I * qe
    I = I + background ** 2
    if saturation is not None:
        I = np.clip(I, 0, saturation)
    return I


def rounded(pix):
    return np.rint(pix).astype(int)


def window(obj, tr, shape):
    return obj[..., tr[0]:tr[0] + shape[0], tr[1]:tr[1] + shape[1]]


def high_na_map(sample_basis, det_basis, det_shape, distance, wavelength, lens=False):
    """(rows, cols) fractional pixel indices in the far field of the tilted sample, and the
    intensity factor, for the pixels of the detector"""
    H, W = det_shape
    I, J = np.meshgrid(np.arange(H) - (H - 1) / 2, np.arange(W) - (W - 1) / 2, indexing='ij')
    n = -np.cross(det_basis[:, 0], det_basis[:, 1])
    n = n / np.linalg.norm(n)
    P = det_basis[:, 0][:, None, None] * I + det_basis[:, 1][:, None, None] * J
    if lens:
        P = P + n[:, None, None] * np.sqrt(distance ** 2 - (P ** 2).sum(0))
    else:
        P = P + n[:, None, None] * distance
    R = np.sqrt((P ** 2).sum(0))
    k0 = 2 * PI / wavelength
    k = k0 * P / R
    cosw = np.tensordot(n, P / R, axes=1)
    amp = np.ones_like(R) if lens else R.min() ** 2 * cosw / R ** 2
    dk = k - k0 * n[:, None, None]
    # normalized frequencies: cycles per sample pixel
    f = np.tensordot(sample_basis.T, dk, axes=1) / (2 * PI)
    return f, amp


def bilinear(img, y, x):
    """Linear interpolation, zero outside"""
    H, W = img.shape[-2:]
    y0, x0 = np.floor(y).astype(int), np.floor(x).astype(int)
    out = np.zeros(img.shape[:-2] + y.shape, img.dtype)
    for dy in (0, 1):
        for dx in (0, 1):
            yy, xx = y0 + dy, x0 + dx
            w = (1 - np.abs(y - yy)) * (1 - np.abs(x - xx))
            ok = (yy >= 0) & (yy < H) & (xx >= 0) & (xx < W)
            v = img[..., np.clip(yy, 0, H - 1), np.clip(xx, 0, W - 1)]
            out = out + np.where(ok, w, 0) * v
    return out


def high_na_far_field(x, sample_basis, det_basis, det_shape, distance, wavelength, lens=False):
    f, amp = high_na_map(sample_basis, det_basis, det_shape, distance, wavelength, lens)
    far = ff(x)
    H, W = far.shape[-2:]
    # frequency f (cycles per pixel) sits at index f*H + H/2 in units where the center of the
    # detector ((N-1)/2) and f = 0 coincide
    y = 2 * f[0] * H / 2 + (H - 1) / 2
    x_ = 2 * f[1] * W / 2 + (W - 1) / 2
    return bilinear(far, y, x_) * amp


# ---- losses -------------------------------------------------------------------------------
def xlogy(x, y):
    with np.errstate(divide='ignore', invalid='ignore'):
        return np.where(x == 0, 0.0, x * np.log(y))


def loss_value(name, pat, sim, mask=None, reduce='sum'):
    pat, sim = np.asarray(pat, float), np.asarray(sim, float)
    if mask is not None:
        m = np.broadcast_to(mask, pat.shape)
        pat, sim = pat[m], sim[m]
    if name == 'amplitude mse':
        v = (np.sqrt(sim) - np.sqrt(pat)) ** 2
    elif name == 'intensity mse':
        v = (sim - pat) ** 2
    else:
        v = sim + 1e-6 - xlogy(pat, sim + 1e-6)
    return v.sum() if reduce == 'sum' else v.mean()


def normalization(name, pats, mask=None):
    """-> (offset, divisor) of the reported loss"""
    p = np.asarray(pats, float)
    if mask is not None:
        p = p[np.broadcast_to(mask, p.shape)]
    if name in ('amplitude mse', 'intensity mse'):
        return 0.0, p.size
    return loss_value('poisson nll', p, p), 0.5 * (p >= 1).sum()


def sinc_shift_back(x, dy, dx):
    """The inverse of sinc_shift: undoes exactly the same phases"""
    H, W = x.shape[-2:]
    ky, kx = phase_freqs(H), phase_freqs(W)
    ph = np.exp(2j * PI * (ky[:, None] * dy / H + kx[None, :] * dx / W))
    return np.fft.ifft2(np.fft.fft2(x) * ph)
