"""P22: tidying, orthogonalizing and standardizing change the description, not the physics."""
import copy
import numpy as np, torch as t
from cdtools import tools
from cdtools.tools import analysis as an, interactions as it
from vf import gen, models as vm
from vf.core import tonp, Skip

RULE = ('FancyPtycho and MultislicePtycho models with all kinds of weights and modes, stacks of modes and weights of all '
        'shapes, reconstructions in random gauges (phase, scale, ramp, exponent, shift); distinct by shapes, ranks and options')
ASSUMPTIONS = ['single precision of the models: predictions are compared to 2e-4 of the brightest value',
               'models with several object modes pair each probe mode with its object mode and are left out']
REQUIRE = {'tidied_continued': 25, 'density_matrices': 60, 'pair_numbers': 18, 'tidied': 300, 'tidied_oprp': 120, 'tidied_multislice': 70, 'tidied_degenerate': 80, 'svd': 200, 'ortho': 200,
           'ortho_weights': 100, 'standardized': 250, 'ramp_corrected': 10, 'synthesized': 50, 'ramps': 75, 'exponents': 35,
           'pairs': 20, 'sets': 20, 'shifted': 40, 'shifted_pairs': 15}


def C(rng, *sh, dtype=np.complex128):
    return (rng.normal(size=sh) + 1j * rng.normal(size=sh)).astype(dtype)


# --- models ------------------------------------------------------------------------------------------------
def tidy(ctx):
    kind = ctx.choice(['fancy', 'fancy', 'multislice'])
    nm = ctx.choice([1, 2, 3, 3, 4])
    cfg = dict(n_modes=nm, dm_rank=ctx.choice([None, 0, -1, ctx.integer(1, nm), ctx.integer(1, nm)]))
    if kind == 'fancy':
        cfg['n_obj_modes'] = 1
    degenerate = ctx.choice(['no', 'no', 'no', 'fresh', 'zero_mode', 'equal_modes', 'same_shots'])
    # with few exposures the number of independent states is smaller than the number of modes
    n = 1 if ctx.flip(0.07) else ctx.choice([2, 3, 5, 8])
    md = vm.make(ctx, kind, n=max(n, 2), cfg=cfg, min_side=8, max_side=12, randomize=degenerate != 'fresh')
    m, ds = md.model, md.dataset
    with t.no_grad():
        if degenerate == 'zero_mode' and nm > 1:
            m.probe.data[-1] = 0
        elif degenerate == 'equal_modes' and nm > 1:
            m.probe.data[-1] = m.probe.data[0] * np.exp(0.3j)
        elif degenerate == 'same_shots':
            m.weights.data[:] = m.weights.data[:1].clone()
        # very different powers of the modes
        if ctx.flip(0.3) and nm > 1:
            m.probe.data *= t.as_tensor(10. ** -ctx.rng.uniform(0, 2, nm)).to(m.probe.real.dtype)[:, None, None]
    oprp = m.weights.dim() == 3
    ctx.param(kind=kind, cfg=md.cfg, degenerate=degenerate, weights=list(m.weights.shape))
    i = t.arange(len(ds))

    def predict():
        with t.no_grad():
            return tonp(m.forward(i, ds.translations)).astype(np.float64)

    def shots():
        P = tonp(m.probe).astype(np.complex128).reshape(m.probe.shape[0], -1)
        W = tonp(m.weights).astype(np.complex128)
        return (W @ P) if oprp else W[:, None, None] * P[None]
    before = predict()
    keep = {k: tonp(v).copy() for k, v in m.state_dict().items()}
    grad = {k: p.requires_grad for k, p in m.named_parameters()}
    s0 = shots()
    if not np.isfinite(before).all():
        raise Skip()
    m.tidy_probes()
    after = predict()
    s1 = shots()
    scale = np.abs(before).max()
    ctx.close(after, before, 'tidy_changes_prediction', rtol=0, atol=2e-4 * scale, msg=f'{kind} {md.cfg} {degenerate}')
    # the state of light of each exposure
    power = max(np.einsum('nij,nij->n', s0, s0.conj()).real.max(), 1e-300)
    rho = lambda s: np.einsum('nki,nkj->nij', s, s.conj())
    ctx.close(rho(s1), rho(s0), 'tidy_changes_coherence', rtol=0, atol=2e-5 * np.abs(rho(s0)).max())
    # everything else stays
    for k, v in m.state_dict().items():
        if k not in ('probe', 'weights'):
            ctx.equal(tonp(v), keep[k], f'tidy_changes_other', k)
    ctx.expect({k: p.requires_grad for k, p in m.named_parameters()} == grad, 'tidy_changes_flags', '')
    ctx.expect(m.probe.dtype == t.complex64 and isinstance(m.probe, t.nn.Parameter), 'tidy_type', f'{m.probe.dtype}')
    ctx.expect(tonp(m.weights).dtype == keep['weights'].dtype, 'tidy_type', 'weights')
    # a natural basis
    P = tonp(m.probe).astype(np.complex128).reshape(m.probe.shape[0], -1)
    G = P @ P.conj().T
    pw = np.real(np.diag(G))
    ctx.expect(np.abs(G - np.diag(pw)).max() <= 1e-4 * pw.max(), 'not_orthogonal', lambda: f'{np.abs(G - np.diag(pw)).max() / pw.max()}')
    ctx.expect(np.all(np.diff(pw) <= 1e-4 * pw.max()), 'not_sorted', lambda: f'{pw}')
    if oprp:
        for k in range(len(s1)):
            g = s1[k] @ s1[k].conj().T
            d = np.real(np.diag(g))
            ctx.expect(np.abs(g - np.diag(d)).max() <= 3e-4 * max(d.max(), 1e-300), 'shot_not_orthogonal',
                       lambda: f'exposure {k}: {np.abs(g - np.diag(d)).max() / d.max()}')
            ctx.expect(np.all(np.diff(d) <= 3e-4 * d.max()), 'shot_not_sorted', lambda: f'{d}')
        # the basis describes the mean exposure
        mean = np.einsum('nki,nki->', s0, s0.conj()).real / len(s0)
        ctx.close(pw.sum(), mean, 'mean_power', rtol=1e-4)
        R = np.einsum('nki,nkj->ij', s0, s0.conj()) / len(s0)
        ctx.close(P.T @ P.conj(), R, 'mean_state', rtol=0, atol=1e-4 * np.abs(R).max())
    else:
        ctx.equal(tonp(m.weights), keep['weights'], 'tidy_changes_other', 'weights')
        P0 = keep['probe'].astype(np.complex128).reshape(m.probe.shape[0], -1)
        ctx.close(P.T @ P.conj(), P0.T @ P0.conj(), 'probe_state', rtol=0, atol=1e-4 * np.abs(P0.T @ P0.conj()).max())
    if kind == 'multislice':
        # the density matrices of the exposures, in the basis of the modes
        W = tonp(m.weights).astype(np.complex128)
        want = np.einsum('nmk,nml->nkl', W, W.conj()) if oprp else np.array([np.eye(m.probe.shape[0])] * len(W))
        got = np.asarray(m.get_rhos())
        ctx.close(got, want, 'density_matrices', rtol=0, atol=1e-5 * np.abs(want).max())
        ctx.note('density_matrices')
    # and once more
    m.tidy_probes()
    ctx.close(predict(), before, 'tidy_twice', rtol=0, atol=4e-4 * scale)
    P2 = tonp(m.probe).astype(np.complex128).reshape(m.probe.shape[0], -1)
    ctx.close(np.linalg.norm(P2, axis=1), np.sqrt(pw), 'tidy_twice', rtol=0, atol=1e-3 * np.sqrt(pw.max()))
    # the reconstruction goes on, whichever the method, and can be tidied on the way
    # (with the gradients of an intensity loss, L-BFGS may overflow single precision)
    if ctx.flip(0.45) and any(p.requires_grad for p in m.parameters()) and md.cfg.get('loss', 'amplitude mse') == 'amplitude mse':
        how = ctx.choice(['LBFGS', 'LBFGS', 'Adam', 'SGD'])
        kw = {'LBFGS': dict(lr=1e-6), 'Adam': dict(lr=1e-9, batch_size=len(ds)), 'SGD': dict(lr=1e-12, batch_size=len(ds))}[how]
        # (the positions stay: a step of theirs may lead out of the object)
        for k, p in m.named_parameters():
            p.requires_grad = k in ('probe', 'obj', 'weights')
        last = []
        finite = lambda: all(np.isfinite(tonp(p)).all() for p in m.parameters())
        try:
            for loss in getattr(m, how + '_optimize')(2, ds, thread=False, **kw):
                last.append(float(loss))
                if not finite():
                    break
                m.tidy_probes()
        except Exception:
            # the steps of the optimizer may be far too long: nothing is promised once they overflowed
            if finite():
                raise
        if not finite():
            ctx.note('tidied_diverged')
        else:
            ctx.expect(len(last) == 2 and np.isfinite(last[0]), 'tidied_continues', lambda: f'{how} {last} {md.cfg}')
            ctx.note('tidied_continued')
    ctx.note('tidied')
    ctx.note('tidied_oprp') if oprp else None
    ctx.note('tidied_multislice') if kind == 'multislice' else None
    ctx.note('tidied_degenerate') if degenerate != 'no' else None
    ctx.sig('tidy', kind, md.cfg.get('n_modes'), str(md.cfg.get('dm_rank')), degenerate, len(ds), sorted(k for k, v in md.cfg.items() if v))


# --- linear algebra ----------------------------------------------------------------------------------------
def svd(ctx):
    n, r, m = ctx.integer(1, 12), ctx.integer(1, 6), ctx.integer(1, 30)
    dt = ctx.choice([np.complex64, np.complex128, np.float32, np.float64])
    A, B = C(ctx.rng, n, r), C(ctx.rng, r, m)
    if np.dtype(dt).kind == 'f':
        A, B = A.real, B.real
    if ctx.flip(0.3) and r > 1:
        A[:, -1] = A[:, 0]
    A, B = (A * 10. ** ctx.uniform(-4, 4)).astype(dt), (B * 10. ** ctx.uniform(-4, 4)).astype(dt)
    npy = ctx.flip()
    U, S, Vh = an.product_svd(*( (A, B) if npy else (t.as_tensor(A), t.as_tensor(B))))
    ctx.param(n=n, r=r, m=m, dtype=str(dt), numpy=npy)
    ctx.expect(all(isinstance(x, np.ndarray if npy else t.Tensor) for x in (U, S, Vh)), 'svd_type', f'{type(U)} {type(S)}')
    U, S, Vh = (tonp(x) for x in (U, S, Vh))
    ctx.expect(U.dtype == dt and Vh.dtype == dt, 'svd_type', f'{U.dtype} {dt}')
    eps = 2e-5 if dt in (np.complex64, np.float32) else 1e-12
    AB = A.astype(np.complex128) @ B.astype(np.complex128)
    s = np.linalg.norm(A) * np.linalg.norm(B)
    k = len(S)
    ctx.expect(k <= min(r, n, m) or k <= r, 'svd_shape', f'{k}')
    ctx.close((U * S) @ Vh, AB, 'svd_product', rtol=0, atol=eps * s)
    ctx.close(U.conj().T @ U, np.eye(k), 'svd_orthonormal', rtol=0, atol=10 * eps, msg='U')
    ctx.close(Vh @ Vh.conj().T, np.eye(k), 'svd_orthonormal', rtol=0, atol=10 * eps, msg='Vh')
    ctx.expect(np.all(S >= 0) and np.all(np.diff(S) <= eps * s), 'svd_sorted', lambda: f'{S}')
    sv = np.linalg.svd(AB, compute_uv=False)
    kk = min(k, len(sv))
    ctx.close(S[:kk], sv[:kk], 'svd_values', rtol=0, atol=eps * s)
    ctx.note('svd')
    ctx.sig('svd', n, r, m, str(dt), npy)


def ortho(ctx):
    dims = ctx.choice([1, 2, 2, 2, 3])
    l = ctx.integer(1, 5)
    sh = tuple(ctx.integer(2, 7) for _ in range(dims))
    dt = ctx.choice([np.complex64, np.complex128])
    eps = 3e-5 if dt is np.complex64 else 1e-11
    npy = ctx.flip()
    P = C(ctx.rng, l, *sh) * 10. ** ctx.rng.uniform(-1, 1, (l,) + (1,) * dims)
    if ctx.flip(0.25) and l > 1:
        P[-1] = P[0] * 0.5j
    P = P.astype(dt)
    W = None
    if ctx.flip(0.55):
        W = C(ctx.rng, ctx.choice([1, 2, l, l + 1, 4 * l]), l, dtype=dt)
    conv = (lambda x: x) if npy else t.as_tensor
    kw = {} if dims == 2 and ctx.flip() else dict(n_probe_dims=dims)
    re = ctx.flip(0.6)
    ctx.param(shape=[l, *sh], weights=None if W is None else list(W.shape), numpy=npy)
    out = an.orthogonalize_probes(conv(P), weight_matrix=None if W is None else conv(W), return_reexpressed_weights=re, **kw)
    O, R = out if re else (out, None)
    ctx.expect(isinstance(O, np.ndarray if npy else t.Tensor), 'ortho_type', f'{type(O)}')
    O = tonp(O)
    ctx.expect(O.shape[1:] == sh and O.dtype == dt, 'ortho_type', f'{O.shape} {O.dtype}')
    if W is None:
        ctx.expect(len(O) == min(l, int(np.prod(sh))), 'ortho_number', f'{O.shape}')
    else:
        ctx.expect(min(len(W), l, int(np.prod(sh))) <= len(O) <= l, 'ortho_number', f'{O.shape} {W.shape}')
    o = O.reshape(len(O), -1).astype(np.complex128)
    p = P.reshape(l, -1).astype(np.complex128)
    f = p if W is None else W.astype(np.complex128) @ p
    M = f.T @ f.conj()
    ctx.close(o.T @ o.conj(), M, 'ortho_coherence', rtol=0, atol=eps * max(np.abs(M).max(), np.linalg.norm(p) ** 2 * eps))
    G = o @ o.conj().T
    d = np.real(np.diag(G))
    ctx.expect(np.abs(G - np.diag(d)).max() <= eps * d.max(), 'ortho_orthogonal', lambda: f'{np.abs(G - np.diag(d)).max() / d.max()}')
    ctx.expect(np.all(np.diff(d) <= eps * d.max()), 'ortho_sorted', lambda: f'{d}')
    if re:
        R = tonp(R).astype(np.complex128)
        ctx.close(R @ o, f, 'ortho_weights', rtol=0, atol=eps * np.abs(f).max() * 3)
        ctx.close(R.conj().T @ R, np.eye(R.shape[1]), 'ortho_unitary', rtol=0, atol=10 * eps)
    ctx.note('ortho')
    if W is not None:
        ctx.note('ortho_weights')
    ctx.sig('ortho', l, sh, None if W is None else W.shape, npy, re)


# --- reconstructions ---------------------------------------------------------------------------------------
def patterns(probe, obj, pos):
    probe = probe if probe.ndim == 3 else probe[None]
    out = []
    for a, b in pos:
        ew = probe * obj[a:a + probe.shape[-2], b:b + probe.shape[-1]]
        out.append((np.abs(np.fft.fft2(ew, norm='ortho')) ** 2).sum(0))
    return np.array(out)


def positions(ctx, probe, obj, n=4):
    return [(ctx.integer(0, obj.shape[0] - probe.shape[-2]), ctx.integer(0, obj.shape[1] - probe.shape[-1])) for _ in range(n)]


def reconstruction(ctx, modes=None, psh=None, osh=None, smooth=3.0):
    r = ctx.rng
    psh = psh or (ctx.integer(8, 14), ctx.integer(8, 14))
    osh = osh or (psh[0] + ctx.integer(16, 30), psh[1] + ctx.integer(16, 30))
    modes = ctx.integer(1, 3) if modes is None else modes
    I, J = np.mgrid[:psh[0], :psh[1]]
    env = np.exp(-((I - psh[0] / 2) ** 2 + (J - psh[1] / 2) ** 2) / (2 * (min(psh) / 5) ** 2))
    probe = np.stack([gen.smooth_field(r, psh) * env / (k + 1) for k in range(modes)])
    obj = gen.smooth_field(r, osh)
    obj = obj / np.abs(obj).mean()
    return probe.astype(np.complex128), obj.astype(np.complex128)


def gauge(ctx, probe, obj, ramp=0.0):
    c = np.exp(1j * ctx.uniform(-np.pi, np.pi)) * 10. ** ctx.uniform(-2, 2)
    q = ctx.rng.uniform(-ramp, ramp, 2)
    f = lambda sh, s: np.exp(s * 2j * np.pi * (q[0] * np.arange(sh[0])[:, None] + q[1] * np.arange(sh[1])))
    pp = probe * c * f(probe.shape[-2:], -1)
    if probe.ndim == 3:
        pp = pp * np.exp(1j * ctx.rng.uniform(-np.pi, np.pi, (len(probe), 1, 1)))
    return pp, obj / c * f(obj.shape, 1), q


def standard(ctx):
    single = ctx.flip(0.3)
    probe, obj = reconstruction(ctx)
    if single:
        probe = probe[0]
    probe, obj, _ = gauge(ctx, probe, obj, ramp=0.05 if ctx.flip() else 0)
    npy = ctx.flip()
    ramp = ctx.flip(0.4)
    sl = ctx.choice([None, np.s_[4:-4, 4:-4], np.s_[:, 3:15]])
    kw = dict(correct_ramp=ramp)
    if sl is not None or ctx.flip():
        kw['obj_slice'] = sl
    conv = (lambda x: x.astype(np.complex64)) if npy else (lambda x: t.as_tensor(x.astype(ctx_dt)))
    ctx_dt = np.complex64 if ctx.flip() else np.complex128
    ctx.param(single=single, numpy=npy, ramp=ramp, shape=list(probe.shape))
    P, O = an.standardize(conv(probe), conv(obj), **kw)
    ctx.expect(isinstance(P, np.ndarray if npy else t.Tensor) and isinstance(O, np.ndarray if npy else t.Tensor), 'standardize_type', '')
    P, O = tonp(P).astype(np.complex128), tonp(O).astype(np.complex128)
    ctx.expect(P.shape == probe.shape and O.shape == obj.shape, 'standardize_shape', f'{P.shape} {O.shape}')
    pos = positions(ctx, probe, obj)
    want = patterns(probe, obj, pos)
    ctx.close(patterns(P, O, pos), want, 'standardize_patterns', rtol=0, atol=5e-4 * want.max())
    P3 = P if P.ndim == 3 else P[None]
    ctx.close(np.sqrt(np.mean(np.abs(P3[0]) ** 2)), 1, 'standardize_norm', rtol=1e-4)
    if sl is None:
        sl = np.s_[obj.shape[0] // 8 * 3: obj.shape[0] // 8 * 5, obj.shape[1] // 8 * 3: obj.shape[1] // 8 * 5]
    tot = O[sl].sum()
    ref = np.abs(O[sl]).sum()
    if abs(tot) > 1e-2 * ref:
        ctx.expect(abs(np.angle(tot)) < 1e-3, 'standardize_object_phase', lambda: f'{np.angle(tot)}')
    for p in P3:
        if abs(p.sum()) > 1e-2 * np.abs(p).sum():
            ctx.expect(abs(np.angle(p.sum())) < 1e-3, 'standardize_probe_phase', lambda: f'{np.angle(p.sum())}')
    ctx.note('standardized')
    if ramp:
        # the light travels along the axis afterwards
        F = np.abs(np.fft.fftshift(np.fft.fft2(P3[0]))) ** 2
        c = np.array([(F.sum(1) * np.arange(F.shape[0])).sum(), (F.sum(0) * np.arange(F.shape[1])).sum()]) / F.sum()
        edge = max(F[0].max(), F[-1].max(), F[:, 0].max(), F[:, -1].max()) / F.max()
        if edge < 1e-3:
            ctx.expect(np.abs(c - np.array(F.shape) // 2).max() < 0.1, 'standardize_ramp', lambda: f'{c} {F.shape}')
            ctx.note('ramp_corrected')
    else:
        # two descriptions of the same become the same one
        p2, o2, _ = gauge(ctx, probe, obj)
        P2, O2 = an.standardize(conv(p2), conv(o2), **kw)
        if abs(tot) > 1e-2 * ref:
            ctx.close(tonp(O2), O, 'standardize_unique', rtol=0, atol=2e-3 * np.abs(O).max())
        P2 = tonp(P2) if P.ndim == 3 else tonp(P2)[None]
        for a, b in zip(P3, P2):
            if abs(a.sum()) > 1e-2 * np.abs(a).sum():
                ctx.close(b, a, 'standardize_unique', rtol=0, atol=2e-3 * np.abs(P3).max())
    ctx.sig('standard', single, npy, ramp, probe.shape, obj.shape)


def synthesize(ctx):
    """Reconstructions of the same sample average to that reconstruction"""
    modes = ctx.integer(1, 2)
    osh = (48 + ctx.integer(0, 16), 48 + ctx.integer(0, 16))
    probe, obj = reconstruction(ctx, modes=modes, psh=(ctx.integer(36, 40), ctx.integer(36, 40)), osh=osh)
    n = ctx.integer(1, 4)
    P, O, shifts = [], [], []
    F = np.fft.fft2
    roll = lambda x, s: np.fft.ifft2(F(x) * np.exp(-2j * np.pi * (np.fft.fftfreq(x.shape[-2])[:, None] * s[0] +
                                                               np.fft.fftfreq(x.shape[-1]) * s[1])))
    for k in range(n):
        s = (0, 0) if k == 0 else tuple(ctx.rng.integers(-4, 5, 2)) if ctx.flip() else tuple(ctx.rng.uniform(-4, 4, 2))
        p, o, _ = gauge(ctx, np.array([roll(q, s) for q in probe]), roll(obj, s))
        P.append(p.astype(np.complex64))
        O.append(o.astype(np.complex64))
        shifts.append(s)
    npy = ctx.flip()
    pnpy = npy if ctx.flip(0.7) else not npy
    if not npy:
        O = [t.as_tensor(x) for x in O]
    if not pnpy:
        P = [t.as_tensor(x) for x in P]
    sl = np.s_[:, :]
    use = ctx.flip(0.3)
    ctx.param(n=n, numpy=npy, use_probe=use, shifts=[list(map(float, s)) for s in shifts])
    sp, so, stack = an.synthesize_reconstructions(P, O, use_probe=use, obj_slice=sl)
    ctx.expect(isinstance(so, np.ndarray if npy else t.Tensor) and len(stack) == n, 'synthesize_type', f'{type(so)} {len(stack)}')
    ctx.expect(isinstance(sp, np.ndarray if pnpy else t.Tensor), 'synthesize_type', f'{type(sp)}')
    ctx.expect(all(isinstance(o, type(so)) for o in stack), 'synthesize_type', 'stack')
    wp, wo = an.standardize(probe.astype(np.complex64), obj.astype(np.complex64), obj_slice=sl)
    # registered to 1/50 of a pixel
    tol = 0.05
    ctx.close(tonp(so), wo, 'synthesize_object', rtol=0, atol=tol * np.abs(wo).max() * (1 if n > 1 else 0.01))
    for o in stack:
        ctx.close(tonp(o), wo, 'synthesize_stack', rtol=0, atol=tol * np.abs(wo).max())
    ctx.close(tonp(so), np.mean([tonp(o) for o in stack], axis=0), 'synthesize_mean', rtol=0, atol=1e-5 * np.abs(wo).max())
    sp = tonp(sp)
    for k in range(modes):
        if abs(wp[k].sum()) > 0.05 * np.abs(wp[k]).sum():
            ctx.close(sp[k], wp[k], 'synthesize_probe', rtol=0, atol=tol * np.abs(wp[k]).max() * (1 if n > 1 else 0.01))
    ctx.note('synthesized')
    ctx.sig('synthesize', n, npy, use, osh)


def ramps(ctx):
    """Removing a ramp or an exponent from object and probe together does not change the exit waves"""
    probe, obj = reconstruction(ctx)
    # An object which is mostly transparent, and a ramp of a fraction of a turn over the window
    obj = 1 + 0.2 * (obj - obj.mean())
    h, w = obj.shape
    a, b = ctx.integer(0, 4), ctx.integer(0, 4)
    win = np.s_[a:h - ctx.integer(0, 4), b:w - ctx.integer(0, 4)]
    N = min(obj[win].shape)
    q = ctx.rng.uniform(-0.4, 0.4, 2) / np.array(obj[win].shape)
    f = lambda sh, s: np.exp(s * 2j * np.pi * (q[0] * np.arange(sh[0])[:, None] + q[1] * np.arange(sh[1])))
    p1, o1 = probe * f(probe.shape[-2:], -1), obj * f(obj.shape, 1)
    if ctx.flip(0.3):
        p1 = p1[0]
    ctx.param(ramp=q.tolist(), shape=[h, w])
    O, P = an.remove_phase_ramp(o1, win, probe=p1)
    ctx.expect(O.shape == o1.shape and P.shape == p1.shape, 'ramp_shape', '')
    pos = positions(ctx, p1, o1)
    want = patterns(p1, o1, pos)
    ctx.close(patterns(P, O, pos), want, 'ramp_patterns', rtol=0, atol=1e-9 * want.max())
    ctx.close(np.abs(O), np.abs(o1), 'ramp_magnitude', rtol=1e-9)
    # a pure ramp, and the best one
    before, after = abs(o1[win].sum()), abs(O[win].sum())
    ctx.expect(after >= before * (1 - 1e-9), 'ramp_worse', lambda: f'{before} {after}')
    rest = np.angle((O[1:] * O[:-1].conj())[win].sum()), np.angle((O[:, 1:] * O[:, :-1].conj())[win].sum())
    ctx.expect(max(abs(rest[0]) * h, abs(rest[1]) * w) < 0.6, 'ramp_left', lambda: f'{rest}')
    only = an.remove_phase_ramp(o1, win)
    ctx.close(only, O, 'ramp_without_probe', rtol=1e-12)
    ctx.note('ramps')
    # exponent
    if ctx.flip(0.6):
        g = ctx.rng.uniform(-0.5, 0.5, 2) / np.array(obj[win].shape)
        e = lambda sh, s: np.exp(s * (g[0] * np.arange(sh[0])[:, None] + g[1] * np.arange(sh[1])))
        p2, o2 = probe, obj / np.abs(obj) * (1 + 0.05 * ctx.rng.normal(size=obj.shape)) * e(obj.shape, 1)
        k = ctx.integer(3, 6)
        basis = np.array([[0, -1e-7 * ctx.uniform(0.5, 2)], [-1.3e-7, 0], [0, 0.]])
        pos = np.array(positions(ctx, probe, obj, k))
        off = ctx.rng.uniform(-5, 5, 2)
        trans = np.array([basis @ (x + off) for x in pos])
        wts = ctx.rng.uniform(0.5, 2, k)
        out = an.remove_amplitude_exponent(o2, win, probe=p2, weights=wts, translations=trans, basis=basis)
        ctx.expect(len(out) == 3, 'exponent_type', f'{len(out)}')
        O, P, W = out
        def waves(o, p, w):
            return np.array([w[i] * p * o[x[0]:x[0] + p.shape[-2], x[1]:x[1] + p.shape[-1]] for i, x in enumerate(pos)])
        w0, w1 = waves(o2, p2, wts), waves(O, P, W)
        c = np.vdot(w0, w1) / np.vdot(w0, w0)
        ctx.close(w1, c * w0, 'exponent_waves', rtol=0, atol=1e-5 * np.abs(c * w0).max())
        ctx.close(c.imag, 0, 'exponent_waves', rtol=0, atol=1e-6 * abs(c))
        ctx.close(np.abs(np.angle(O * o2.conj())).max(), 0, 'exponent_phase', rtol=0, atol=1e-9)
        sl1 = np.polyfit(np.arange(h), np.log(np.abs(O)).mean(1), 1)[0], np.polyfit(np.arange(w), np.log(np.abs(O)).mean(0), 1)[0]
        ctx.expect(max(abs(sl1[0]) * h, abs(sl1[1]) * w) < 0.12, 'exponent_left', lambda: f'{sl1} {g}')
        two = an.remove_amplitude_exponent(o2, win, probe=p2)
        ctx.close(two[0], O, 'exponent_forms', rtol=1e-12)
        ctx.close(two[1], P, 'exponent_forms', rtol=1e-12)
        ctx.close(an.remove_amplitude_exponent(o2, win), O, 'exponent_forms', rtol=1e-12)
        ctx.note('exponents')
    ctx.sig('ramp', probe.shape, obj.shape)


def both(ctx):
    """Standardized sets: halves in different gauges describe the same, and each keeps its physics"""
    r = ctx.rng
    modes = ctx.integer(1, 2)
    probe, obj = reconstruction(ctx, modes=modes, psh=(36, 36 + ctx.integer(0, 4)), osh=(60 + ctx.integer(0, 8), 58 + ctx.integer(0, 8)))
    obj = 1 + 0.3 * (obj - obj.mean())
    basis = np.array([[0, -1e-7], [-1.2e-7, 0], [0, 0.]])
    full = ctx.flip()
    k = 3 if full else 2
    recs, raw, tilted = [], [], []
    F = np.fft.fft2
    for i in range(k):
        o = obj + 0.02 * gen.smooth_field(r, obj.shape)
        tilted.append(ctx.flip(0.7))
        p, o, _ = gauge(ctx, probe, o, ramp=0.3 / 60 if tilted[-1] else 0)
        recs.append(dict(obj=o.astype(np.complex64), probe=p.astype(np.complex64), weights=np.ones(4, np.float32),
                         translations=r.normal(size=(4, 3)) * 1e-6, background=np.zeros(probe.shape[-2:], np.float32),
                         obj_basis=basis, probe_basis=basis, wavelength=np.array(1e-9)))
        raw.append((p, o))
    win = np.s_[6:-6, 8:-8]
    f = an.standardize_reconstruction_set if full else an.standardize_reconstruction_pair
    names = ['half_1', 'half_2', 'full'] if full else ['1', '2']
    ctx.param(modes=modes, full=full)
    opts = dict(window=win, nbins=6)
    if ctx.flip(0.4):
        opts['correct_phase_offset'] = ctx.flip()
        opts['correct_phase_ramp'] = ctx.flip()
        opts['correct_amplitude_exponent'] = ctx.flip()
    if not full:
        opts['probe_nbins'] = ctx.integer(5, 9)
    if ctx.flip(0.3):
        opts['frc_limit'] = ctx.choice(['side', 'corner'])
    plain = opts.get('correct_phase_offset', True) and opts.get('correct_phase_ramp', True)
    expo = opts.get('correct_amplitude_exponent', False)
    out = f(*recs, **opts)
    pos = positions(ctx, probe, obj)
    for j, nme in enumerate(names):
        p, o = out['probe_' + nme], out['obj_' + nme]
        ctx.expect(p.shape == probe.shape and o.shape == obj.shape, 'set_shape', '')
        # nothing but a gauge and a shift was applied
        want = patterns(*raw[j], pos)
        got = patterns(p, o, pos)
        if expo:
            # the strength of each pattern moves to its weight
            want, got = (x / x.sum(axis=(-2, -1), keepdims=True) for x in (want, got))
        ctx.close(got, want, 'set_patterns', rtol=0, atol=0.1 * want.max(), msg=nme)
        ctx.equal(out['translations_' + nme], recs[j]['translations'], 'set_passes_on', nme)
        if not (expo and full):
            ctx.equal(out['weights_' + nme], recs[j]['weights'], 'set_passes_on', nme)
        bname = {'half_1': 'background_1', 'half_2': 'background_2', 'full': 'background_full'}.get(nme, 'background_' + nme)
        ctx.equal(out[bname], recs[j]['background'], 'set_passes_on', bname)
        if opts.get('correct_phase_ramp', True):
            left = np.array([np.angle((o[1:] * o[:-1].conj())[win].sum()) * o[win].shape[0],
                             np.angle((o[:, 1:] * o[:, :-1].conj())[win].sum()) * o[win].shape[1]])
            ctx.expect(np.abs(left).max() < 0.6, 'set_ramp_left', lambda: f'{nme} {left}')
            ctx.note('set_ramps', int(tilted[j]))
    a, b = out['obj_' + names[0]][win], out['obj_' + names[1]][win]
    if not full:
        # numbers about the probes
        p1, p2 = (out['probe_' + x].astype(np.complex128).reshape(modes, -1) for x in names)
        fid = np.linalg.svd(p1 @ p2.conj().T, compute_uv=False).sum() ** 2
        i1, i2 = (np.abs(p1) ** 2).sum(), (np.abs(p2) ** 2).sum()
        ctx.close(out['probe_nmse'], 1 - fid / (i1 * i2), 'set_probe_nmse', rtol=0, atol=1e-4)
        ctx.close(out['probe_nrms_error'], np.sqrt(max(0, i1 + i2 - 2 * np.sqrt(fid)) / i1), 'set_probe_rms', rtol=0, atol=6e-3)
        pf = an.analysis.calc_generalized_frc(out['probe_1'], out['probe_2'], basis, nbins=opts['probe_nbins'], limit=opts.get('frc_limit', 'side'))
        for key, v in zip(('probe_freqs', 'probe_frc', 'probe_frc_threshold'), pf):
            ctx.close(out[key], v, 'set_' + key, rtol=1e-4, atol=1e-5 * np.nanmax(np.abs(v)))
        ctx.note('pair_numbers')
    h = lambda o: o * np.outer(*(np.sin(np.pi * np.arange(n) / (n - 1)) ** 2 for n in o.shape))
    ff = an.calc_frc(h(a.astype(np.complex128)), h(b.astype(np.complex128)), basis, nbins=6, limit=opts.get('frc_limit', 'side'))
    for key, v in zip(('frc_freqs', 'frc', 'frc_threshold'), ff):
        ctx.close(out[key], v, 'set_' + key, rtol=1e-4, atol=1e-4 * np.nanmax(np.abs(v)))
    ctx.equal(out['probe_basis'], basis, 'set_passes_on', 'probe_basis')
    ctx.equal(out['wavelength'], recs[0]['wavelength'], 'set_passes_on', 'wavelength')
    a, b = out['obj_' + names[0]][win], out['obj_' + names[1]][win]
    ctx.expect(not plain or abs(np.angle(np.vdot(a, b))) < 0.05, 'set_phase', lambda: f'{np.angle(np.vdot(a, b))}')
    ctx.equal(out['obj_basis'], basis, 'set_passes_on', 'obj_basis')
    frc = np.abs(out['frc'])
    ctx.expect(not plain or np.all(frc[:2] > 0.8) and np.all(frc < 1.0001), 'set_frc', lambda: f'{frc}')
    fac = 2 if full else 1
    ctx.close(out['ssnr'], fac * frc / (1 - frc), 'set_ssnr', rtol=1e-5)
    if not full:
        # the fidelity of two normalized states lies between zero and one
        ctx.note('pairs')
    else:
        ctx.note('sets')
    ctx.sig('set', full, modes, obj.shape)


def moved(x, s):
    """x, moved by s pixels (periodically)"""
    f = np.fft.fftfreq(x.shape[-2])[:, None] * s[0] + np.fft.fftfreq(x.shape[-1])[None] * s[1]
    return np.fft.ifft2(np.fft.fft2(x) * np.exp(-2j * np.pi * f))


def between(a, b, reach=4, step=0.1):
    """By how many pixels b has to be moved to lie on a"""
    taper = np.outer(*(np.sin(np.pi * (np.arange(n) + 0.5) / n) ** 2 for n in a.shape))
    c = np.fft.fft2(a * taper) * np.fft.fft2(b * taper).conj()
    g = np.arange(-reach, reach + step / 2, step)
    e = [np.exp(2j * np.pi * np.outer(g, np.fft.fftfreq(n))) for n in a.shape]
    m = np.abs(e[0] @ c @ e[1].T)
    i = np.unravel_index(np.argmax(m), m.shape)
    return np.array([g[i[0]], g[i[1]]])


def shifted(ctx):
    """Halves which lie at different places are brought onto each other"""
    r = ctx.rng
    shape = (64 + ctx.integer(0, 6), 60 + ctx.integer(0, 8))
    obj = np.abs(gen.smooth_field(r, shape, sigma=0.05)) ** 2 * np.exp(0.5j * gen.smooth_field(r, shape, sigma=0.04).real)
    # shifts are measured with all frequencies alike, so there has to be something at each
    obj = obj + 0.1 * C(r, *shape)
    n = 36
    x = np.arange(n) - n // 2
    probe = np.exp(-(x[:, None] ** 2 + x ** 2) / ctx.uniform(40, 60)) * (1 + 0.3 * gen.smooth_field(r, (n, n), sigma=0.04))
    probe = np.stack([probe * 0.4 ** k * (gen.smooth_field(r, (n, n), sigma=0.04) if k else 1) for k in range(ctx.integer(1, 2))])
    probe = probe + 0.03 * np.abs(probe).max() * C(r, *probe.shape)
    full = ctx.flip()
    k = 3 if full else 2
    basis = np.array([[0, -1e-7], [-1.2e-7, 0], [0, 0.]])
    recs, raw, shifts = [], [], []
    for i in range(k):
        s = r.uniform(-1.9, 1.9, 2) if ctx.flip(0.8) else np.zeros(2)
        p, o, _ = gauge(ctx, moved(probe, s), moved(obj, s), ramp=0.3 / 60 if ctx.flip() else 0)
        raw.append((p, o))
        shifts.append(s)
        recs.append(dict(obj=o.astype(np.complex64), probe=p.astype(np.complex64), weights=np.ones(4, np.float32),
                         translations=r.normal(size=(4, 3)) * 1e-6, background=np.zeros((n, n), np.float32),
                         obj_basis=basis, probe_basis=basis, wavelength=np.array(1e-9)))
    win = np.s_[6:-6, 8:-8]
    ctx.param(full=full, modes=len(probe), shifts=[list(map(float, s)) for s in shifts])
    before = copy.deepcopy(recs)
    opts = dict(window=win, nbins=6)
    if not full:
        opts['probe_nbins'] = 6
    out = (an.standardize_reconstruction_set if full else an.standardize_reconstruction_pair)(*recs, **opts)
    for a, b in zip(recs, before):
        for key in b:
            ctx.equal(a[key], b[key], 'shifted_input_changed', key)
    names = ['half_1', 'half_2', 'full'] if full else ['1', '2']
    to = names[-1] if full else names[0]
    for j, nme in enumerate(names):
        left = between(out['obj_' + to][win], out['obj_' + nme][win])
        ctx.expect(np.abs(left).max() < 0.36, 'shifted_objects', lambda: f'{nme}: {left} of {shifts[j]}')
        # moved as a whole, and changed by nothing but phases
        o = np.abs(out['obj_' + nme])
        s = between(o[win], np.abs(raw[j][1])[win], reach=5)
        want = np.abs(moved(raw[j][1], s))
        q = np.s_[10:-10, 10:-10]
        ctx.close(o[q] / o[q].mean(), want[q] / want[q].mean(), 'shifted_values', rtol=0, atol=0.25 * (want[q] / want[q].mean()).max(), msg=nme)
    if not full:
        left = between(out['probe_1'][0], out['probe_2'][0])
        ctx.expect(np.abs(left).max() < 0.36, 'shifted_probes', lambda: f'{left} of {shifts[1] - shifts[0]}')
        ctx.close((np.abs(out['probe_2']) ** 2).sum(axis=(-2, -1)), (np.abs(raw[1][0]) ** 2).sum(axis=(-2, -1)), 'shifted_probe_power', rtol=1e-3)
        ctx.note('shifted_pairs')
    ctx.expect(np.all(np.abs(out['frc'][:2]) > 0.8), 'shifted_frc', lambda: f"{out['frc']}")
    ctx.note('shifted')
    ctx.sig('shifted', full, len(probe), shape)


WORKLOADS = {'shifted': (shifted, 80, 500), 'tidy': (tidy, 600, 3000), 'svd': (svd, 400, 5000), 'ortho': (ortho, 400, 6000), 'standard': (standard, 500, 2500),
             'synthesize': (synthesize, 100, 800), 'ramps': (ramps, 150, 1200), 'both': (both, 100, 500)}
