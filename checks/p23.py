"""P23: the metrics which judge reconstructions are those defined, and depend on the physics only."""
import numpy as np, torch as t
from cdtools.tools import analysis as an
from cdtools.tools.analysis import analysis as full
from vf import gen, models as vm
from vf.core import tonp, Skip

RULE = ('pairs and stacks of fields of random shapes, numbers of modes, batch dimensions, precision, scale and number types, equal, '
        'related by gauges or unrelated, compared with float64 definitions; distinct by function, shapes and options')
ASSUMPTIONS = ['pixels whose frequency is on the edge of a bin to rounding may be counted on either side: shapes, pixel sizes '
               'and bins are chosen so that this does not happen',
               'coherence and correlation of empty bins are undefined']
# Cases of the quick tier, relative to the numbers below
QUICK = 2
REQUIRE = {'rms': 600, 'fidelity': 600, 'generalized_rms': 600, 'equal_states': 120, 'frc': 480, 'generalized_frc': 240, 'prtf': 240,
           'cross': 240, 'entropy': 400, 'pure_states': 60, 'power': 400, 'spectrum': 240, 'colinear': 20, 'illumination': 40}


def C(rng, *sh):
    return rng.normal(size=sh) + 1j * rng.normal(size=sh)


def cast(ctx, x, npy, dt):
    x = np.asarray(x).astype(dt if np.iscomplexobj(x) else np.dtype(dt).type(0).real.dtype)
    return x if npy else t.as_tensor(x)


def dtype(ctx):
    dt = ctx.choice([np.complex64, np.complex128])
    return dt, (1e-4 if dt is np.complex64 else 1e-9)


def unitary(rng, n):
    return np.linalg.qr(C(rng, n, n))[0]


# --- fields ------------------------------------------------------------------------------------------------
def rms(ctx):
    dims = ctx.choice([1, 2, 2, 2, 3])
    sh = tuple(ctx.integer(2, 9) for _ in range(dims))
    batch = tuple(ctx.integer(1, 3) for _ in range(ctx.integer(0, 2)))
    dt, eps = dtype(ctx)
    real = ctx.flip(0.15)
    mk = (lambda: ctx.rng.normal(size=batch + sh)) if real else (lambda: C(ctx.rng, *batch, *sh))
    a = mk() * 10. ** ctx.uniform(-3, 3)
    mode = ctx.choice(['free', 'phase', 'close', 'equal', 'orthogonal'])
    b = {'free': lambda: mk() * np.abs(a).mean(), 'phase': lambda: a * np.exp(1j * ctx.uniform(-3, 3)),
         'close': lambda: a * np.exp(1j * ctx.uniform(-3, 3)) + 0.05 * mk() * np.abs(a).mean(), 'equal': lambda: a.copy(),
         'orthogonal': lambda: a * 0}[mode]()
    align, norm = ctx.flip(0.7), ctx.flip()
    npy = ctx.flip()
    kw = {} if dims == 2 and ctx.flip() else dict(dims=dims)
    A, B = cast(ctx, a, npy, dt), cast(ctx, b, npy, dt)
    ctx.param(shape=[*batch, *sh], dims=dims, mode=mode, align=align, normalize=norm, dtype=str(dt))
    got = tonp(an.calc_rms_error(A, B, align_phases=align, normalize=norm, **kw))
    a, b = tonp(A).astype(np.complex128), tonp(B).astype(np.complex128)
    ax = tuple(range(-dims, 0))
    ip = (a * b.conj()).sum(ax, keepdims=True)
    g = np.exp(1j * np.angle(ip)) if align else 1
    want = np.sqrt(np.mean(np.abs(a - g * b) ** 2, ax))
    size = np.sqrt(np.mean(np.abs(a) ** 2, ax))
    if norm:
        want = want / size
        size = np.ones_like(size)
    ctx.expect(got.shape == batch, 'rms_shape', f'{got.shape} {batch}')
    # rounding of fields which almost agree
    ctx.expect(np.all(np.abs(got - want) <= eps * (want + size)), 'rms_value', lambda: f'{got} {want}')
    if align and mode in ('phase', 'equal') and not real:
        ctx.expect(np.all(got <= 20 * eps * size), 'rms_zero', lambda: f'{got}')
    if align:
        # no other phase is better
        for p in ctx.rng.uniform(-np.pi, np.pi, 4):
            other = np.sqrt(np.mean(np.abs(a - np.exp(1j * p) * b) ** 2, ax)) / (np.sqrt(np.mean(np.abs(a) ** 2, ax)) if norm else 1)
            ctx.expect(np.all(got <= other + 2 * eps * size), 'rms_best_phase', lambda: f'{got} {other}')
    ctx.note('rms')
    ctx.sig('rms', dims, sh, batch, mode, align, norm, str(dt), npy, real)


def modes_pair(ctx, dims=2, sh=None, batch=None, equal_ok=True):
    sh = sh or tuple(ctx.integer(2, 8) for _ in range(dims))
    batch = tuple(ctx.integer(1, 3) for _ in range(ctx.choice([0, 0, 1, 2]))) if batch is None else batch
    k, l = ctx.integer(1, 4), ctx.integer(1, 4)
    a = C(ctx.rng, *batch, k, *sh) / np.sqrt(k)
    rel = ctx.choice(['free', 'equal', 'reexpressed', 'phase', 'close', 'more_modes'])
    if rel == 'free':
        b = C(ctx.rng, *batch, l, *sh)
    elif rel == 'equal':
        b = a.copy()
    elif rel == 'phase':
        b = a * np.exp(1j * ctx.rng.uniform(-3, 3, (k,) + (1,) * dims))
    elif rel == 'close':
        b = a + 0.1 * C(ctx.rng, *batch, k, *sh)
    else:
        # a unitary mixture, maybe with more modes than necessary
        n = k + (ctx.integer(1, 2) if rel == 'more_modes' else 0)
        U = unitary(ctx.rng, n)[:, :k]
        b = np.einsum('ij,...jp->...ip', U, a.reshape(*batch, k, -1)).reshape(*batch, n, *sh)
    return a, b, rel, sh, batch, dims


def ref_fidelity(a, b, dims):
    """From the definition with density matrices"""
    A = a.reshape(*a.shape[:-dims], -1)
    B = b.reshape(*b.shape[:-dims], -1)
    def one(x, y):
        # density matrices in the space spanned by both
        Q = np.linalg.qr(np.concatenate([x, y]).T)[0]
        x, y = x @ Q.conj(), y @ Q.conj()
        r, s = x.T @ x.conj(), y.T @ y.conj()
        w, v = np.linalg.eigh(r)
        q = (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T
        e = np.linalg.eigvalsh(q @ s @ q)
        return np.sqrt(np.clip(e, 0, None)).sum() ** 2
    if A.ndim == 2:
        return np.array(one(A, B))
    return np.array([ref_fidelity(x, y, 1) for x, y in zip(A, B)])


def fidelity(ctx):
    dims = ctx.choice([1, 2, 2, 2, 3])
    a, b, rel, sh, batch, dims = modes_pair(ctx, dims)
    dt, eps = dtype(ctx)
    a, b = a * 10. ** ctx.uniform(-2, 2), b * 10. ** ctx.uniform(-2, 2)
    npy = ctx.flip()
    A, B = cast(ctx, a, npy, dt), cast(ctx, b, npy, dt)
    kw = {} if dims == 2 and ctx.flip() else dict(dims=dims)
    ctx.param(a=list(a.shape), b=list(b.shape), rel=rel, dims=dims)
    got = tonp(an.calc_fidelity(A, B, **kw))
    pa, pb = (np.sum(np.abs(x) ** 2, axis=tuple(range(-dims - 1, 0))) for x in (a, b))
    ctx.expect(got.shape == batch, 'fidelity_shape', f'{got.shape} {batch}')
    ctx.close(got, ref_fidelity(a, b, dims), 'fidelity_value', rtol=0, atol=max(eps, 3e-7) * np.max(pa * pb))
    ctx.expect(np.all(got <= pa * pb * (1 + eps)), 'fidelity_bound', lambda: f'{got} {pa * pb}')
    ctx.close(tonp(an.calc_fidelity(B, A, **kw)), got, 'fidelity_symmetric', rtol=0, atol=eps * np.max(pa * pb))
    if rel in ('equal', 'reexpressed', 'phase', 'more_modes') and rel != 'free':
        ctx.close(got, pa * pb, 'fidelity_same_state', rtol=10 * eps)
    if a.shape[-dims - 1] == 1 and b.shape[-dims - 1] == 1:
        ov = np.abs(np.sum(a * b.conj(), axis=tuple(range(-dims - 1, 0)))) ** 2
        ctx.close(got, ov, 'fidelity_coherent', rtol=0, atol=eps * np.max(pa * pb))
    ctx.note('fidelity')
    ctx.sig('fidelity', a.shape, b.shape, rel, str(dt), npy)


def generalized(ctx):
    dims = ctx.choice([1, 2, 2, 2, 3])
    a, b, rel, sh, batch, dims = modes_pair(ctx, dims)
    dt, eps = dtype(ctx)
    s = 10. ** ctx.uniform(-2, 2)
    a, b = a * s, b * s
    npy = ctx.flip()
    norm = ctx.flip()
    A, B = cast(ctx, a, npy, dt), cast(ctx, b, npy, dt)
    kw = {} if dims == 2 and ctx.flip() else dict(dims=dims)
    ctx.param(a=list(a.shape), b=list(b.shape), rel=rel, dims=dims, normalize=norm, dtype=str(dt))
    got = tonp(an.calc_generalized_rms_error(A, B, normalize=norm, **kw))
    ax = tuple(range(-dims - 1, 0))
    npx = np.prod(sh)
    pa, pb = (np.sum(np.abs(x) ** 2, axis=ax) / npx for x in (a, b))
    sq = np.clip(pa + pb - 2 * np.sqrt(ref_fidelity(a, b, dims)) / npx, 0, None)
    size = pa + pb
    if norm:
        sq, size = sq / pa, size / pa
    ctx.expect(got.shape == batch, 'generalized_shape', f'{got.shape} {batch}')
    ctx.expect(np.all(np.isfinite(got)), 'generalized_finite', lambda: f'{rel}: {got}')
    # The error of the square is what rounding determines
    ctx.expect(np.all(np.abs(got ** 2 - sq) <= max(eps, 1e-6) * size), 'generalized_value', lambda: f'{got ** 2} {sq} {rel}')
    if rel in ('equal', 'reexpressed', 'phase', 'more_modes'):
        ctx.expect(np.all(got ** 2 <= max(eps, 1e-6) * size), 'generalized_same_state', lambda: f'{got}')
        ctx.note('equal_states')
    if a.shape[-dims - 1] == 1 and b.shape[-dims - 1] == 1:
        plain = tonp(an.calc_rms_error(np.squeeze(tonp(A), -dims - 1), np.squeeze(tonp(B), -dims - 1), normalize=norm, dims=dims))
        ctx.expect(np.all(np.abs(got ** 2 - plain ** 2) <= max(eps, 1e-6) * size), 'generalized_coherent', lambda: f'{got} {plain}')
    ctx.note('generalized_rms')
    ctx.sig('generalized', a.shape, b.shape, rel, norm, str(dt), npy)


# --- frequencies -------------------------------------------------------------------------------------------
def grid(ctx):
    """Shape, basis and bins without pixels on the edges of bins"""
    while True:
        h, w = ctx.integer(14, 30), ctx.integer(14, 30)
        di, dj = ctx.uniform(0.5, 2) * 1e-7, ctx.uniform(0.5, 2) * 1e-7
        rotate = gen.rot([ctx.uniform(-1, 1), ctx.uniform(-1, 1), 1], ctx.uniform(-3, 3)) if ctx.flip(0.3) else np.eye(3)
        basis = rotate @ np.array([[0, -dj], [-di, 0], [0, 0]])
        fi, fj = np.fft.fftshift(np.fft.fftfreq(h, di)), np.fft.fftshift(np.fft.fftfreq(w, dj))
        R = np.hypot(fi[:, None], fj[None])
        limit = ctx.choice(['side', 'side', 'corner', ' Corner', 'SIDE'])
        nb = ctx.integer(3, 7)
        top = R.max() if 'corner' in limit.lower() else max(fi.max(), fj.max())
        edges = np.linspace(0, top, nb + 1)
        inner = np.abs(R[..., None] - edges[1:-1]).min() / top
        last = np.abs(R - top) / top
        # only those on the last edge, which belong to the last bin, and the pixel at zero
        if inner > 1e-5 and np.all((last < 1e-12) | (last > 1e-5)):
            return h, w, basis, R, limit, nb, top, edges


def binned(R, edges, weights):
    out = []
    for k in range(len(edges) - 1):
        sel = (R >= edges[k]) & ((R < edges[k + 1]) if k < len(edges) - 2 else (R <= edges[k + 1] * (1 + 1e-9)))
        out.append(weights[..., sel].sum(-1))
    return np.array(out)


def van_heel(snr, n):
    s = snr / 2
    return (s + (2 * np.sqrt(s) + 1) / np.sqrt(n)) / (1 + s + 2 * np.sqrt(s) / np.sqrt(n))


def frc(ctx):
    h, w, basis, R, limit, nb, top, edges = grid(ctx)
    dt, eps = dtype(ctx)
    npy = ctx.flip()
    H, W, sl = h, w, None
    if ctx.flip():
        a, b = ctx.integer(0, 5), ctx.integer(0, 5)
        H, W, sl = h + a + ctx.integer(0, 4), w + b + ctx.integer(0, 4), np.s_[a:a + h, b:b + w]
    x = gen.smooth_field(ctx.rng, (H, W)) + 0.2 * C(ctx.rng, H, W)
    rel = ctx.choice(['noisy', 'free', 'equal', 'phase'])
    y = {'noisy': lambda: x * 2 + 0.5 * C(ctx.rng, H, W), 'free': lambda: C(ctx.rng, H, W), 'equal': lambda: x.copy(),
         'phase': lambda: x * 3j}[rel]()
    if ctx.flip(0.2):
        x, y = x.real, y.real if rel != 'phase' else 3 * x.real
    snr = ctx.choice([1., 1, 2., 0.414, 0.5])
    kw = dict(nbins=nb, limit=limit)
    if sl is not None:
        kw['im_slice'] = sl
    if snr != 1 or ctx.flip():
        kw['snr'] = snr
    X, Y = cast(ctx, x, npy, dt), cast(ctx, y, npy, dt)
    Bs = basis if npy or ctx.flip() else t.as_tensor(basis)
    ctx.param(shape=[h, w], bins=nb, limit=limit, rel=rel, snr=snr, numpy=npy)
    f, c, th = an.calc_frc(X, Y, Bs, **kw)
    ctx.expect(isinstance(c, np.ndarray if npy else t.Tensor) and isinstance(th, np.ndarray if npy else t.Tensor), 'frc_type', f'{type(c)}')
    f, c, th = tonp(f), tonp(c), tonp(th)
    s = sl or np.s_[:, :]
    F, G = (np.fft.fftshift(np.fft.fft2(tonp(v).astype(np.complex128)[s])) for v in (X, Y))
    num, d1, d2 = binned(R, edges, F * G.conj()), binned(R, edges, np.abs(F) ** 2), binned(R, edges, np.abs(G) ** 2)
    n = binned(R, edges, np.ones_like(R))
    ok = n > 0
    ctx.expect(len(f) == len(c) == len(th) == nb, 'frc_shape', f'{len(f)} {len(c)} {nb}')
    ctx.close(f, edges[:-1], 'frc_frequencies', rtol=1e-5, atol=1e-9 * top)
    ctx.close(c[ok], (num / np.sqrt(d1 * d2))[ok], 'frc_value', rtol=0, atol=10 * eps)
    ctx.close(th[ok], van_heel(snr, n)[ok], 'frc_threshold', rtol=1e-5)
    ctx.expect(np.all(np.abs(c[ok]) <= 1 + 10 * eps), 'frc_bound', lambda: f'{np.abs(c)}')
    if rel in ('equal', 'phase'):
        ctx.close(np.abs(c[ok]), 1, 'frc_same', rtol=20 * eps) if False else ctx.expect(
            np.all(np.abs(np.abs(c[ok]) - 1) < 20 * eps), 'frc_same', lambda: f'{np.abs(c)}')
    if ctx.flip(0.2):
        # the default bins
        kd = {k: v for k, v in kw.items() if k not in ('nbins', 'limit')}
        n0 = len(tonp(an.calc_frc(X, Y, Bs, **kd)[1]))
        ctx.expect(1 <= n0 <= max(h, w), 'frc_default_bins', f'{n0}')
        if X.ndim == 2:
            q = full.calc_generalized_frc(X[None], Y[None], Bs, **{k: v for k, v in kd.items() if k != 'im_slice'})
            ctx.expect(1 <= len(tonp(q[1])) <= max(H, W), 'frc_default_bins', f'{len(tonp(q[1]))}')
    # exchanging conjugates, scale is irrelevant
    _, c2, _ = an.calc_frc(Y, X * 7.5, Bs, **kw)
    ctx.close(tonp(c2)[ok], c[ok].conj(), 'frc_symmetric', rtol=0, atol=20 * eps)
    ctx.note('frc')
    ctx.sig('frc', h, w, nb, limit, rel, npy, sl is None, str(dt))


def generalized_frc(ctx):
    h, w, basis, R, limit, nb, top, edges = grid(ctx)
    dt, eps = dtype(ctx)
    npy = ctx.flip()
    a, b, rel, _, _, _ = modes_pair(ctx, 2, sh=(h, w), batch=())
    snr = ctx.choice([1., 2., 0.414])
    X, Y = cast(ctx, a, npy, dt), cast(ctx, b, npy, dt)
    ctx.param(shape=[h, w], a=len(a), b=len(b), bins=nb, limit=limit, rel=rel, snr=snr)
    kw = dict(nbins=nb, limit=limit, snr=snr)
    def call(x, y):
        if len(x) != len(y):
            # it only takes the same number of modes
            z = np.zeros((max(len(x), len(y)), h, w), dt)
            pad = lambda v: np.concatenate([tonp(v), z[:len(z) - len(v)]])
            x, y = (pad(x), pad(y)) if npy else (t.as_tensor(pad(x)), t.as_tensor(pad(y)))
        return full.calc_generalized_frc(x, y, basis, **kw)
    f, c, th = call(X, Y)
    ctx.expect(isinstance(f, np.ndarray if npy else t.Tensor) and isinstance(c, np.ndarray if npy else t.Tensor) and
               isinstance(th, np.ndarray if npy else t.Tensor), 'generalized_frc_type', f'{type(f)} {type(c)} {type(th)}')
    f, c, th = tonp(f), tonp(c), tonp(th)
    n = binned(R, edges, np.ones_like(R))
    ok = n > 0
    ctx.close(f, edges[:-1], 'generalized_frc_frequencies', rtol=1e-5, atol=1e-9 * top)
    ctx.close(th[ok], van_heel(snr, n)[ok], 'generalized_frc_threshold', rtol=1e-5)
    F, G = (np.fft.fftshift(np.fft.fft2(tonp(v).astype(np.complex128)), axes=(-2, -1)) for v in (X, Y))
    want = []
    for k in range(nb):
        sel = (R >= edges[k]) & ((R < edges[k + 1]) if k < nb - 1 else (R <= edges[k + 1] * (1 + 1e-9)))
        p, q = F[:, sel], G[:, sel]
        if not sel.any():
            want.append(np.nan)
            continue
        want.append(np.sqrt(ref_fidelity(p, q, 1)) / np.sqrt(np.sum(np.abs(p) ** 2) * np.sum(np.abs(q) ** 2)))
    want = np.array(want)
    ctx.close(c[ok], want[ok], 'generalized_frc_value', rtol=0, atol=max(20 * eps, 1e-6))
    if len(a) == len(b) == 1:
        _, c1, th1 = an.calc_frc(X[0], Y[0], basis, **kw)
        ctx.close(c[ok], np.abs(tonp(c1))[ok], 'generalized_frc_coherent', rtol=0, atol=20 * eps)
        ctx.close(th[ok], tonp(th1)[ok], 'generalized_frc_coherent', rtol=1e-6)
    if rel in ('equal', 'phase', 'reexpressed', 'more_modes'):
        ctx.expect(np.all(np.abs(c[ok] - 1) < max(20 * eps, 1e-6)), 'generalized_frc_same', lambda: f'{c} {rel}')
    ctx.note('generalized_frc')
    ctx.sig('gfrc', h, w, nb, limit, rel, len(a), len(b), npy, str(dt))


def prtf(ctx):
    while True:
        h, w, basis, R, limit, nb, top, edges = grid(ctx)
        if 'corner' in limit.lower():
            break
    npy = ctx.flip()
    k = ctx.integer(1, 4)
    H, W, sl = h, w, np.s_[:, :]
    if ctx.flip():
        a, b = ctx.integer(0, 5), ctx.integer(0, 5)
        H, W, sl = h + a, w + b, np.s_[a:a + h, b:b + w]
    base = gen.smooth_field(ctx.rng, (H, W)) + C(ctx.rng, H, W)
    same = ctx.flip(0.2)
    objs = [base * (1 if same else 10. ** ctx.uniform(-1, 1)) + (0 if same else C(ctx.rng, H, W)) for _ in range(k)]
    synth = np.mean(objs, axis=0)
    O = [cast(ctx, o, npy, np.complex64) for o in objs]
    Sy = cast(ctx, synth, npy or ctx.flip(), np.complex64)
    ctx.param(shape=[h, w], bins=nb, n=k, numpy=npy)
    f, p = an.calc_consistency_prtf(Sy, O, basis if npy or ctx.flip() else t.as_tensor(basis), obj_slice=sl, nbins=nb)
    ctx.expect(isinstance(p, np.ndarray if npy else t.Tensor) and isinstance(f, np.ndarray if npy else t.Tensor), 'prtf_type', f'{type(p)}')
    # the bins reach from the smallest to the largest frequency
    ed = np.linspace(R.min(), R.max(), nb + 1)
    I = lambda x: binned(R, ed, np.abs(np.fft.fftshift(np.fft.fft2(tonp(x).astype(np.complex128)[sl]))) ** 2)
    want = np.mean([I(Sy) / I(o) for o in O], axis=0)
    ctx.expect(len(tonp(p)) == nb, 'prtf_shape', f'{len(p)}')
    ok = binned(R, ed, np.ones_like(R)) > 0
    ctx.close(tonp(f), ed[:-1], 'prtf_frequencies', rtol=1e-5, atol=1e-7 * top)
    ctx.close(tonp(p)[ok], want[ok], 'prtf_value', rtol=2e-4)
    if same:
        ctx.close(tonp(p)[ok], np.ones(ok.sum()), 'prtf_same', rtol=2e-4)
    ctx.note('prtf')
    ctx.sig('prtf', h, w, nb, k, npy, same)


def cross(ctx):
    h, w = ctx.integer(4, 20), ctx.integer(4, 20)
    dt, eps = dtype(ctx)
    npy = ctx.flip()
    x = C(ctx.rng, h, w)
    y = C(ctx.rng, h, w)
    s = (ctx.integer(0, h - 1), ctx.integer(0, w - 1))
    shifted = ctx.flip()
    if shifted:
        y = np.roll(x, s, (0, 1)) * 3 * np.exp(0.7j)
    sl = ctx.choice([np.s_[:, :], np.s_[:, :], np.s_[1:, :-1]]) if not shifted else np.s_[:, :]
    X, Y = cast(ctx, x, npy, dt), cast(ctx, y, npy, dt)
    ctx.param(shape=[h, w], shift=s if shifted else None, numpy=npy)
    c = an.calc_deconvolved_cross_correlation(X, Y, im_slice=sl)
    ctx.expect(isinstance(c, np.ndarray if npy else t.Tensor), 'cross_type', f'{type(c)}')
    c = tonp(c)
    F, G = (np.fft.fft2(tonp(v).astype(np.complex128)[sl]) for v in (X, Y))
    q = F * G.conj()
    small = np.abs(q).min() / np.abs(q).max()
    ctx.close(c, np.fft.ifft2(q / np.abs(q)), 'cross_value', rtol=0, atol=10 * eps / max(small, 1e-9) * 1e-3 + eps)
    if shifted:
        want = np.zeros((h, w), complex)
        want[-s[0] % h, -s[1] % w] = np.exp(-0.7j)
        ctx.close(c, want, 'cross_peak', rtol=0, atol=eps / max(small, 1e-9) * 1e-2 + 10 * eps)
    ctx.note('cross')
    ctx.sig('cross', h, w, npy, shifted, str(dt))


# --- states ------------------------------------------------------------------------------------------------
def entropy(ctx):
    n, k = ctx.integer(1, 6), ctx.integer(1, 5)
    dt, eps = dtype(ctx)
    kind = ctx.choice(['mixed', 'mixed', 'pure', 'deficient', 'uniform', 'diagonal'])
    mats, want = [], []
    for _ in range(k):
        p = ctx.rng.uniform(0.05, 1, n)
        if kind == 'pure':
            p[1:] = 0
        elif kind == 'deficient':
            p[n // 2 + 1:] = 0
        elif kind == 'uniform':
            p[:] = 1
        p = p / p.sum()
        U = np.eye(n) if kind == 'diagonal' else unitary(ctx.rng, n)
        m = (U * p) @ U.conj().T
        m = (m + m.conj().T) / 2
        mats.append(m * (1 if ctx.flip() else 10. ** ctx.uniform(-2, 2)))
        q = p[p > 0]
        want.append(-(q * np.log(q)).sum())
    mats = np.array(mats).astype(dt)
    ctx.param(kind=kind, n=n, k=k, dtype=str(dt), traces=[float(np.trace(m).real) for m in mats])
    got = an.calc_vn_entropy(mats)
    tol = 2e-4 if dt is np.complex64 else 1e-9
    ctx.expect(np.shape(got) == (k,), 'entropy_shape', f'{np.shape(got)}')
    ctx.close(got, np.array(want), 'entropy_stack', rtol=0, atol=tol, msg=kind)
    for m, g in zip(mats, want):
        ctx.close(an.calc_vn_entropy(m), g, 'entropy_single', rtol=0, atol=tol, msg=f'{kind} trace {np.trace(m).real}')
    if kind in ('pure', 'deficient'):
        ctx.note('pure_states')
    ctx.note('entropy')
    ctx.sig('entropy', kind, n, k, str(dt))


def power(ctx):
    dims = ctx.choice([1, 2, 2, 2, 3])
    l = ctx.integer(1, 5)
    sh = tuple(ctx.integer(2, 7) for _ in range(dims))
    dt, eps = dtype(ctx)
    npy = ctx.flip()
    P = C(ctx.rng, l, *sh) * 10. ** ctx.rng.uniform(-1, 0, (l,) + (1,) * dims)
    W = C(ctx.rng, ctx.choice([l, 2 * l, 7]), l) if ctx.flip() else None
    pre = ctx.flip(0.3)
    p, wt = cast(ctx, P, npy, dt), None if W is None else cast(ctx, W, npy, dt)
    kw = {} if dims == 2 and ctx.flip() else dict(n_probe_dims=dims)
    ctx.param(shape=[l, *sh], weights=W is not None, pre=pre, numpy=npy)
    got = an.calc_mode_power_fractions(p, weight_matrix=wt, assume_preorthogonalized=pre, **kw)
    ctx.expect(isinstance(got, np.ndarray) == npy and t.is_tensor(got) != npy, 'power_type', f'{type(p)} {type(got)}')
    got = tonp(got)
    f = P.reshape(l, -1)
    f = f if W is None else W @ f
    if pre:
        want = np.sum(np.abs(f) ** 2, 1)
    else:
        want = np.linalg.svd(f, compute_uv=False) ** 2
        want = np.pad(want, (0, max(0, len(got) - len(want))))[:max(len(got), 1)] if len(want) != len(got) else want
    ctx.close(got, want / want.sum(), 'power_value', rtol=0, atol=3 * eps)
    ctx.close(got.sum(), 1, 'power_sum', rtol=eps)
    if not pre:
        # independent of how the state is expressed
        if W is None:
            U = unitary(ctx.rng, l)
            q = np.tensordot(U, P, 1)
            again = tonp(an.calc_mode_power_fractions(cast(ctx, q, npy, dt), assume_preorthogonalized=False, **kw))
        else:
            again = tonp(an.calc_mode_power_fractions(p * 3, weight_matrix=cast(ctx, unitary(ctx.rng, len(W)) @ W, npy, dt), **kw))
        ctx.close(again, got, 'power_invariant', rtol=0, atol=3 * eps)
    ctx.note('power')
    ctx.sig('power', l, sh, None if W is None else W.shape, pre, npy)


def spectrum(ctx):
    n = ctx.integer(4, 9)
    s, ds = gen.small_dataset(ctx.rng, n=n, shape=(ctx.integer(10, 18), ctx.integer(10, 18)), mask=ctx.flip(0.8))
    line = ctx.flip(0.15)
    if line:
        ds.translations[:, 1] = 0
    tr = tonp(ds.translations).astype(np.float64)[:, :2]
    pats = tonp(ds.patterns).astype(np.float64)
    mask = tonp(ds.mask).astype(bool)
    basis = tonp(ds.detector_geometry['basis']).astype(np.float64)
    h, w = pats.shape[-2:]
    lam, D = float(ds.wavelength), float(ds.detector_geometry['distance'])
    # sides of the real-space pixels and their parallelogram
    ob = ref_ew_basis(basis, (h, w), lam, D)
    pi, pj = np.linalg.norm(ob, axis=0)
    fi, fj = np.fft.fftshift(np.fft.fftfreq(h, pi)), np.fft.fftshift(np.fft.fftfreq(w, pj))
    R = np.hypot(fi[:, None], fj[None])
    top = max(fi.max(), fj.max())
    nb = ctx.integer(3, 6)
    edges = np.linspace(0, top, nb + 1)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        img, f, sp = an.calc_spectral_info(ds, nbins=nb)
    img, f, sp = tonp(img), tonp(f), tonp(sp)
    if line:
        scale = 1 / n
        ctx.note('colinear')
    else:
        scale = np.linalg.norm(np.cross(ob[:, 0] * h, ob[:, 1] * w)) / hull_area(tr)
    ctx.param(shape=[h, w], n=n, bins=nb, line=line)
    want = np.where(mask, pats.sum(0), 0) * scale
    ctx.close(img, want, 'spectrum_image', rtol=0, atol=2e-4 * want.max())
    ctx.close(f, edges[:-1], 'spectrum_frequencies', rtol=1e-4, atol=1e-7 * top)
    clear = np.all(np.abs(R[..., None] - edges[None, None, 1:-1]) > 1e-4 * top, axis=-1)
    last = np.abs(R - top) < 1e-4 * top
    amb = ~clear | last
    for k in range(nb):
        sel = (R >= edges[k]) & (R < edges[k + 1])
        near = (np.abs(R - edges[k]) < 1e-4 * top) & (k > 0) | (np.abs(R - edges[k + 1]) < 1e-4 * top)
        if near.any() or not (sel & mask).any():
            continue
        ctx.close(sp[k], want[sel].sum() / mask[sel].sum(), 'spectrum_value', rtol=1e-3, msg=f'bin {k}')
    ctx.note('spectrum')
    ctx.sig('spectrum', h, w, n, nb, line, mask.all())


def ref_ew_basis(basis, shape, lam, D):
    # the axes of the detector are orthogonal
    return basis / np.linalg.norm(basis, axis=0) ** 2 * lam * D / np.array(shape)


def hull_area(p):
    """Gift wrapping and the shoelace formula"""
    pts = sorted(map(tuple, p))
    def half(q):
        out = []
        for x in q:
            while len(out) > 1 and (out[-1][0] - out[-2][0]) * (x[1] - out[-2][1]) - (out[-1][1] - out[-2][1]) * (x[0] - out[-2][0]) <= 0:
                out.pop()
            out.append(x)
        return out[:-1]
    v = np.array(half(pts) + half(pts[::-1]))
    return 0.5 * abs(np.dot(v[:, 0], np.roll(v[:, 1], -1)) - np.dot(v[:, 1], np.roll(v[:, 0], -1)))


def illumination(ctx):
    """The illumination map of a reconstruction is the sum of its probe's intensity at all positions"""
    md = vm.make(ctx, 'fancy', n=ctx.integer(1, 9) if ctx.flip() else ctx.integer(2, 5), tilt=False, near_field=False, min_side=6, max_side=12,
                 cfg=dict(fourier_probe=False, probe_fourier_crop=None, n_obj_modes=1, scattering_mode=None))
    m, ds = md.model, md.dataset
    res = m.save_results(ds if ctx.flip() else None)
    pos = vm.pixel_positions(md)
    if (np.abs(pos - np.floor(pos) - 0.5) < 5e-3).any():
        raise Skip('positions between two pixels')
    P = np.abs(res['probe'].astype(np.complex128)) ** 2
    P = P.sum(axis=0)
    want = np.zeros(res['obj'].shape[-2:])
    kw = {}
    if ctx.flip():
        kw['total_probe_intensity'] = float(ctx.uniform(0.1, 1e4))
        P = P / P.sum() * kw['total_probe_intensity']
    ob = tonp(m.obj)
    for x in np.round(pos).astype(int):
        ctx.require(x.min() >= 0 and x[0] + P.shape[0] <= want.shape[0] and x[1] + P.shape[1] <= want.shape[1], 'illumination_fits', f'{x} {want.shape}')
        want[x[0]:x[0] + P.shape[0], x[1]:x[1] + P.shape[1]] += P
    before = {k: np.copy(res[k]) for k in ('probe', 'obj', 'translations')}
    got = full.make_illumination_map(res, **kw)
    ctx.require(got.shape == want.shape, 'illumination_shape', f'{got.shape} {want.shape}')
    ctx.expect(np.isrealobj(got), 'illumination_type', str(got.dtype))
    ctx.close(got, want, 'illumination', rtol=1e-4, scale=want.max())
    ctx.close(got.sum(), len(pos) * P.sum(), 'illumination_total', rtol=1e-4)
    for k, v in before.items():
        ctx.equal(res[k], v, 'illumination_inputs', k)
    ctx.note('illumination')
    ctx.sig('illumination', want.shape, len(pos), bool(kw), P.shape)


WORKLOADS = {'illumination': (illumination, 120, 1200), 'rms': (rms, 1500, 20000), 'fidelity': (fidelity, 1500, 20000), 'generalized': (generalized, 1500, 20000), 'frc': (frc, 1250, 16000),
             'generalized_frc': (generalized_frc, 600, 10000), 'prtf': (prtf, 600, 10000), 'cross': (cross, 600, 10000),
             'entropy': (entropy, 1000, 16000), 'power': (power, 1000, 16000), 'spectrum': (spectrum, 600, 10000)}
