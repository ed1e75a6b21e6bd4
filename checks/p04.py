"""P04: padding and downsampling conserve the signal and the meaning of all per-pixel data."""
import numpy as np, torch as t
from vf import gen
from vf.core import tonp

RULE = ('random datasets padded with all forms of the padding argument and downsampled by factors '
        'of 1 to 4, singly and in sequences, compared with float64 block sums; and a known exit '
        'wave detected before and after: distinct by the operations, the shape and the present data')
ASSUMPTIONS = ['patterns are of a floating point type (or 64 bit integers)',
               'trailing rows and columns which do not fill a block are dropped',
               'the background is summed over all pixels of a block, as the existing tests require']
# Cases of the quick tier, relative to the numbers below
QUICK = 3
REQUIRE = {'pad': 100, 'down': 100, 'qe_down': 30, 'combined_model': 60, 'invalid_pixels': 15, 'counts': 60}


def state(s):
    return dict(pat=s.patterns.astype(float), mask=np.ones(s.shape, bool) if s.mask is None else s.mask,
                qe=s.qe_mask, bg=s.background, basis=s.basis.copy())


def ref_pad(st, p, value, m):
    q = (p,) * 4 if isinstance(p, int) else (p[0], p[0], p[1], p[1]) if len(p) == 2 else p
    w = ((q[2], q[3]), (q[0], q[1]))
    return dict(pat=np.pad(st['pat'], ((0, 0),) + w, constant_values=value),
                mask=np.pad(st['mask'], w, constant_values=not m),
                qe=None if st['qe'] is None else np.pad(st['qe'], w, constant_values=1),
                bg=None if st['bg'] is None else np.pad(st['bg'], w), basis=st['basis'])


def ref_down(st, f):
    H, W = (x // f for x in st['mask'].shape)
    def blk(a):
        return a[..., :H * f, :W * f].reshape(a.shape[:-2] + (H, f, W, f))
    out = dict(pat=blk(st['pat'] * st['mask']).sum((-3, -1)), basis=st['basis'] * f)
    out['bg'] = None if st['bg'] is None else blk(st['bg'].astype(float)).sum((-3, -1))
    if st['qe'] is None:
        out['qe'] = None
        out['mask'] = blk(st['mask']).all((-3, -1))
    else:
        out['qe'] = blk(st['qe'].astype(float) * st['mask']).mean((-3, -1))
        out['mask'] = blk(st['mask']).any((-3, -1))
    return out


def compare(ctx, d, st, why):
    ctx.close(d.patterns, st['pat'], 'patterns', rtol=1e-6, msg=why)
    ctx.equal(d.mask, st['mask'], 'mask', why)
    ctx.expect(d.mask.dtype == t.bool, 'mask', f'{why}: type {d.mask.dtype}')
    for k, name in (('qe', 'qe_mask'), ('bg', 'background')):
        g = getattr(d, name)
        if st[k] is None:
            ctx.expect(g is None, name, why)
        else:
            ctx.close(g, st[k], name, rtol=1e-6, msg=why)
    ctx.close(d.detector_geometry['basis'], st['basis'], 'basis', rtol=1e-6, msg=why)


def sequences(ctx):
    rng = ctx.rng
    s = gen.make_spec(rng, min_side=5, max_side=26, basis_tilt=ctx.flip(0.3))
    gen.decorate(rng, s, orientation=False)
    if ctx.flip(0.1):
        s.patterns = s.patterns.astype(np.float64)
    if ctx.flip(0.1):
        s.patterns = s.patterns.astype(np.int64)
    elif ctx.flip(0.25):
        # counts, as detectors deliver them
        dt = ctx.choice(['uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32', 'uint64'])
        s.raw_type = dt
        top = np.iinfo(dt).max if dt != 'uint64' else 2 ** 40
        s.patterns = np.minimum(np.rint(s.patterns * (1 if ctx.flip() else top / s.patterns.max())).astype(np.int64), top)
        ctx.note('counts')
    integral = s.patterns.dtype.kind == 'i'
    d = gen.build(s)
    tr, inten = tonp(d.translations).copy(), s.intensities
    st = state(s)
    ops = []
    for _ in range(ctx.integer(1, 4)):
        if ctx.flip():
            p = ctx.choice([0, 1, 3, (1, 2), (3, 0), [2, 1], (0, 1, 2, 3), (4, 0, 0, 1)])
            v = ctx.choice([0, 0, 7]) if not integral else 0
            kw = {}
            if v:
                kw['value'] = v
            m = True
            if ctx.flip(0.4):
                m = ctx.flip()
                kw['mask'] = m
            before = st
            d.pad(p, **kw)
            st = ref_pad(st, p, v, m)
            ops.append(f'pad{p}{v}{m}')
            ctx.note('pad')
        else:
            f = ctx.choice([1, 2, 2, 3, 4])
            if min(st['mask'].shape) < f:
                continue
            good = (tonp(d.patterns).astype(float) * st['mask'])
            H, W = (x // f * f for x in st['mask'].shape)
            if f == 2 and ctx.flip():
                d.downsample()
            else:
                d.downsample(f)
            st = ref_down(st, f)
            ops.append(f'down{f}')
            ctx.note('down')
            if st['qe'] is not None:
                ctx.note('qe_down')
            # conservation of the unmasked signal
            ctx.close(tonp(d.patterns).astype(float).sum((1, 2)), good[:, :H, :W].sum((1, 2)),
                      'signal_conserved', rtol=2e-6)
        compare(ctx, d, st, '>'.join(ops))
    ctx.equal(d.translations, tr, 'positions_untouched')
    if inten is not None:
        ctx.equal(d.intensities, inten, 'intensities_untouched')
    ctx.param(ops=ops)
    ctx.sample(ops=ops, shape=s.shape)
    ctx.sig('>'.join(ops), s.shape, s.qe_mask is not None, s.background is not None)


def independent(ctx):
    """The arrays a dataset was made from are not changed by editing it, nor is a second dataset
    made from the same description"""
    s, d = gen.small_dataset(ctx.rng, mask=None, background=None, qe_mask=None, n=4)
    import copy
    from cdtools.datasets import Ptycho2DDataset
    arrs = dict(mask=s.mask, background=s.background, qe_mask=s.qe_mask)
    geo = {'distance': 1.0, 'basis': t.as_tensor(s.basis, dtype=t.float32)}
    pats = s.patterns.copy()
    d1 = Ptycho2DDataset(s.translations, pats, wavelength=1e-9, detector_geometry=geo, **arrs)
    d2 = Ptycho2DDataset(s.translations, pats, wavelength=1e-9, detector_geometry=geo, **arrs)
    keep = copy.deepcopy(arrs)
    snap = gen.snapshot_dataset(d2)
    for op in range(3):
        if ctx.flip():
            d1.pad(1)
        else:
            d1.downsample(2)
    ctx.sig(ctx.index)
    ctx.close(geo['basis'], s.basis, 'inputs_untouched', rtol=1e-6)
    ctx.equal(pats, s.patterns, 'inputs_untouched')
    for k in arrs:
        if arrs[k] is not None:
            ctx.equal(arrs[k], keep[k], 'inputs_untouched')
    ctx.expect(not gen.same_snapshot(snap, gen.snapshot_dataset(d2)), 'inputs_untouched')


def combined_model(ctx):
    """Detecting a wave and then downsampling equals detecting it with the downsampled quantum
    efficiency, wherever the illumination is flat over a block; masked pixels never contribute"""
    rng = ctx.rng
    f = ctx.choice([2, 3])
    H, W = ctx.integer(2, 6), ctx.integer(2, 6)
    coarse = rng.uniform(10, 100, (H, W))
    fine = np.kron(coarse, np.ones((f, f)))
    qe = rng.uniform(0.3, 1, fine.shape).astype(np.float32)
    mask = rng.random(fine.shape) > 0.3
    s = gen.make_spec(rng, n=3, shape=fine.shape)
    poison = ctx.choice([10 ** rng.uniform(3, 6), -1e4, np.nan, np.inf])
    s.patterns = np.stack([np.where(mask, fine * qe, poison)] * 3).astype(np.float32)
    if ctx.flip(0.3):
        qe = np.where(mask, qe, np.nan).astype(np.float32)
    s.qe_mask, s.mask = qe, mask
    d = gen.build(s)
    d.downsample(f)
    ctx.note('combined_model')
    ctx.note('invalid_pixels', int(not np.isfinite(poison)))
    ctx.sig(f, H, W, int(mask.sum()))
    ok = mask.reshape(H, f, W, f).any((1, 3))
    ctx.equal(d.mask, ok, 'model_mask')
    sim = coarse * f * f * tonp(d.qe_mask)
    ctx.close(tonp(d.patterns)[0] * ok, sim * ok, 'model_after_downsampling', rtol=1e-5)


WORKLOADS = {'sequences': (sequences, 800, 12000), 'independent': (independent, 30, 200),
             'combined_model': (combined_model, 120, 1500)}
