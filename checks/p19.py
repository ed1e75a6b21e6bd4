"""P19: exit waves are the probe times the object at the right place."""
import numpy as np, torch as t
from vf import gen, ref
from vf.core import tonp
from cdtools import tools

RULE = ('random probes (one or several modes), objects (one or several modes), positions (whole, '
        'half and arbitrary pixels, single or many) through every interaction, compared with '
        'float64 loops; distinct by interaction, shapes and options')
ASSUMPTIONS = ['rounded positions are not closer than 1e-4 to a half pixel, except for exact halves',
               'windows lie on the object, with one more row and column for the shifted object']
# Cases of the quick tier, relative to the numbers below
QUICK = 3
REQUIRE = {'round': 60, 'upsampled': 15, 'linear_probe': 40, 'linear_object': 40, 'sinc': 100,
           'shift_back': 40, 'object_modes': 20, 'rpi': 60, 'whole_pixels': 40, 'precisions': 100}
I_ = tools.interactions


def cx(ctx, *shape):
    r = ctx.rng
    return (r.normal(size=shape) + 1j * r.normal(size=shape)).astype(np.complex64)


def setup(ctx, n_probe=(), n_obj=(), even=False):
    sh = (ctx.integer(2, 14), ctx.integer(2, 14))
    if even:
        sh = (2 * (sh[0] // 2), 2 * (sh[1] // 2))
    osh = (sh[0] + ctx.integer(3, 12), sh[1] + ctx.integer(3, 12))
    n = ctx.integer(1, 6)
    room = np.array(osh) - sh - 1.01
    pos = ctx.rng.uniform(0, 1, (n, 2)) * room
    style = ctx.choice(['any', 'any', 'whole', 'half', 'mixed'])
    if style == 'whole':
        pos = np.floor(pos)
        ctx.note('whole_pixels')
    elif style == 'half':
        pos = np.floor(pos) + 0.5 * (ctx.rng.random((n, 2)) > 0.5)
    elif style == 'mixed':
        pos[:, ctx.integer(0, 1)] = np.floor(pos[:, 0])
        pos = np.minimum(pos, np.floor(room))
    pos = pos.astype(np.float32)
    bad = np.abs(pos - np.floor(pos) - 0.5)
    pos = np.where((bad < 1e-4) & (bad > 0), pos + 0.01, pos).astype(np.float32)
    # the window may be chosen on either side of a whole pixel
    pos = np.where(pos - np.floor(pos) > 0.997, pos - 0.01, pos).astype(np.float32)
    pr = cx(ctx, *n_probe, *sh)
    ob = cx(ctx, *n_obj, *osh)
    ctx.param(sh=sh, osh=osh, pos=pos)
    return sh, osh, n, pos, pr, ob, style


def both(ctx, fn, pr, ob, pos, want, mech, rtol, **kw):
    """Many and single positions"""
    a, b, c = t.as_tensor(pr), t.as_tensor(ob), t.as_tensor(pos)
    a0, b0, c0 = a.clone(), b.clone(), c.clone()
    got = fn(a, b, c, **kw)
    s = np.abs(want).max()
    ctx.close(got, want, mech, rtol=rtol, msg=f'{kw}')
    k = ctx.integer(0, len(pos) - 1)
    ctx.close(fn(a, b, c[k], **kw), want[k], mech + ':single', rtol=rtol, scale=s, msg=f'{kw}')
    ctx.equal(a, a0, 'inputs_unchanged')
    ctx.equal(b, b0, 'inputs_unchanged')
    ctx.equal(c, c0, 'inputs_unchanged')
    ctx.expect(got.dtype == t.complex64, 'exit_wave_dtype', str(got.dtype))
    if ctx.flip(0.3):
        # in any precision, also in different ones
        da, db = (ctx.choice([t.complex64, t.complex128]) for _ in range(2))
        dc = ctx.choice([t.float32, t.float64])
        got2 = fn(a.to(da), b.to(db), c.to(dc), **kw)
        ctx.close(got2, want, 'precision', rtol=rtol, msg=f'{da} {db} {dc} {kw}')
        ctx.note('precisions')
    return got


def round_(ctx):
    modes = ctx.integer(1, 3) if ctx.flip() else None
    up = ctx.flip(0.3)
    sh, osh, n, pos, pr, ob, style = setup(ctx, () if modes is None else (modes,), even=up)
    if style == 'half':
        # half pixels round to even
        pass
    win = (sh[0] // 2, sh[1] // 2) if up else sh
    out = []
    for p in pos:
        i = np.rint(p.astype(float)).astype(int)
        o = ref.window(ob.astype(complex), i, win)
        if up:
            F = ref.ff(o)
            big = np.zeros(sh, complex)
            y, x = sh[0] // 2 - win[0] // 2, sh[1] // 2 - win[1] // 2
            big[y:y + win[0], x:x + win[1]] = F
            o = ref.iff(big) * 2
        out.append(pr * o)
    kw = dict(multiple_modes=True) if modes is not None else {}
    if up:
        kw['upsample_obj'] = True
        ctx.note('upsampled')
    both(ctx, I_.ptycho_2D_round, pr, ob, pos, np.array(out), 'round', 3e-6 if not up else 2e-5, **kw)
    ctx.note('round')
    ctx.sig('round', sh, modes, up, style)
    ctx.sample(shape=sh, modes=modes, positions=pos)


def linear(ctx):
    shift = ctx.flip()
    sh, osh, n, pos, pr, ob, style = setup(ctx)
    out = []
    for p in pos.astype(float):
        i = np.floor(p).astype(int)
        f = p - i
        if shift:
            q = sum(np.roll(pr.astype(complex), (a, b), (0, 1)) *
                    (f[0] if a else 1 - f[0]) * (f[1] if b else 1 - f[1])
                    for a in (0, 1) for b in (0, 1))
            out.append(q * ref.window(ob, i, sh))
        else:
            q = sum(ref.window(ob.astype(complex), i + [a, b], sh) *
                    (f[0] if a else 1 - f[0]) * (f[1] if b else 1 - f[1])
                    for a in (0, 1) for b in (0, 1))
            out.append(pr * q)
    kw = {} if shift and ctx.flip() else dict(shift_probe=shift)
    both(ctx, I_.ptycho_2D_linear, pr, ob, pos, np.array(out), 'linear', 5e-6, **kw)
    ctx.note('linear_probe' if shift else 'linear_object')
    ctx.sig('linear', sh, shift, style)


def sinc(ctx):
    kind = ctx.choice(['single', 'modes', 'modes', 'obj_modes', 'per_position'])
    back = ctx.flip(0.4)
    m = ctx.integer(1, 3)
    if kind == 'single':
        sh, osh, n, pos, pr, ob, style = setup(ctx)
        prs = [pr[None]] * n
    elif kind == 'modes':
        sh, osh, n, pos, pr, ob, style = setup(ctx, (m,))
        prs = [pr] * n
    elif kind == 'obj_modes':
        sh, osh, n, pos, pr, ob, style = setup(ctx, (m,), (m,))
        prs = [pr] * n
        ctx.note('object_modes')
    else:
        sh, osh, n, pos, pr, ob, style = setup(ctx, (m,))
        prs = cx(ctx, n, m, *sh)
        pr = prs
    out = []
    for p, q in zip(pos.astype(float), prs):
        i = np.floor(p).astype(int)
        f = p - i
        e = ref.sinc_shift(q.astype(complex), *f) * ref.window(ob, i, sh)
        if back:
            e = ref.sinc_shift_back(e, *f)
        out.append(e)
    out = np.array(out)
    kw = dict(shift_back_ew=True) if back else {}
    if kind == 'single':
        out = out[:, 0]
        kw['multiple_modes'] = False
    elif ctx.flip():
        kw['multiple_modes'] = True
    if kind == 'per_position':
        got = I_.ptycho_2D_sinc(t.as_tensor(pr), t.as_tensor(ob), t.as_tensor(pos), **kw)
        ctx.close(got, out, 'sinc', rtol=2e-5, msg=f'{kind} {kw}')
    else:
        got = both(ctx, I_.ptycho_2D_sinc, pr, ob, pos, out, 'sinc', 2e-5, **kw)
    # moving the probe conserves its energy, and back again is the identity
    flat = t.ones(osh, dtype=t.complex64)
    e = I_.ptycho_2D_sinc(t.as_tensor(pr), flat, t.as_tensor(pos), **kw)
    want = np.array([(np.abs(q) ** 2).sum() for q in prs])
    ctx.close((e.abs() ** 2).reshape(n, -1).sum(1), want, 'shift_energy', rtol=1e-4)
    if back:
        w = np.array(prs)[:, 0] if kind == 'single' else np.array(prs)
        ctx.close(e, w, 'shift_and_back', rtol=2e-5)
        ctx.note('shift_back')
    ctx.note('sinc')
    ctx.sig('sinc', kind, sh, back, style)


def rpi(ctx):
    sh = (ctx.integer(2, 18), ctx.integer(2, 18))
    osh = (ctx.integer(1, sh[0]), ctx.integer(1, sh[1]))
    kind = ctx.choice(['2d', 'pm', 'modes'])
    pm, om = ctx.integer(1, 3), ctx.integer(1, 3)
    if kind == '2d':
        pr, ob = cx(ctx, *sh), cx(ctx, *osh)
    else:
        pr, ob = cx(ctx, pm, *sh), cx(ctx, om, 1, *osh) if kind == 'modes' else cx(ctx, *osh)
    F = ref.ff(ob.astype(complex))
    big = np.zeros(ob.shape[:-2] + sh, complex)
    y, x = sh[0] // 2 - osh[0] // 2, sh[1] // 2 - osh[1] // 2
    big[..., y:y + osh[0], x:x + osh[1]] = F
    up = ref.iff(big) * np.sqrt(np.prod(sh) / np.prod(osh))
    want = pr * up if kind != 'modes' else pr[None] * up
    a, b = t.as_tensor(pr), t.as_tensor(ob)
    got = I_.RPI_interaction(a, b)
    ctx.close(got, want, 'rpi', rtol=2e-5, msg=f'{kind} {pr.shape} {ob.shape}')
    # a uniform object stays uniform, with its value
    flat = t.full(osh, 1.5 - 0.5j, dtype=t.complex64)
    ctx.close(I_.RPI_interaction(a, flat), pr * (1.5 - 0.5j), 'rpi_uniform', rtol=2e-5)
    ctx.note('rpi')
    ctx.sig('rpi', kind, sh, osh)


WORKLOADS = {'round': (round_, 250, 4000), 'linear': (linear, 250, 4000), 'sinc': (sinc, 500, 8000),
             'rpi': (rpi, 250, 4000)}
