"""Generators of models. `make(ctx, kind, ...)` builds a small dataset and a model of it through
the public constructors, and describes the configuration in `cfg`."""
import numpy as np
import torch as t
from vf import gen
from vf.core import tonp

KINDS = ['fancy', 'simple', 'multislice', 'bragg', 'rpi']
LOSSES = ['amplitude mse', 'poisson nll', 'intensity mse']


class Made:
    """kind, spec, dataset, model, cfg"""
    def __init__(self, **kw):
        self.__dict__.update(kw)


def _opt(ctx, p, fn):
    return fn() if ctx.flip(p) else None


def fancy_cfg(ctx, s, rich=True):
    r = ctx
    side = min(s.shape)
    cfg = dict(n_modes=r.choice([1, 1, 2, 3]))
    if not rich:
        cfg.update(obj_padding=r.integer(4, 8), loss=r.choice(LOSSES))
        return cfg
    cfg.update(
        dm_rank=r.choice([None, None, 0, -1, 'k']),
        translation_scale=r.choice([1, 1, 4, 0.5]),
        use_qe_mask=r.flip(0.4),
        probe_support_radius=_opt(r, 0.3, lambda: r.uniform(0.25, 0.5) * side),
        probe_fourier_crop=_opt(r, 0.3, lambda: r.integer(1, 2)),
        propagation_distance=_opt(r, 0.2, lambda: r.uniform(1e-7, 1e-6)),
        scattering_mode=r.choice([None, None, None, 't', 'transmission']),
        oversampling=r.choice([1, 1, 1, 2, 3]),
        fourier_probe=r.flip(0.25),
        loss=r.choice(LOSSES),
        allow_probe_fourier_shifts=r.flip(0.25),
        simulate_probe_translation=r.flip(0.2),
        simulate_finite_pixels=r.flip(0.2),
        exponentiate_obj=r.flip(0.3),
        phase_only=False,
        obj_padding=r.integer(4, 9),
        randomize_ang=r.choice([0, 0.5]),
        units=r.choice(['um', 'nm']),
        panel_plot_mode=r.flip(),
        plot_level=r.choice([1, 2, 3]))
    if cfg['exponentiate_obj']:
        cfg['phase_only'] = r.flip(0.4)
    if cfg['dm_rank'] == 'k':
        cfg['dm_rank'] = r.integer(1, cfg['n_modes'])
    if cfg['n_modes'] >= 2 and cfg['dm_rank'] in (None, 0) and r.flip(0.15):
        cfg['n_obj_modes'] = cfg['n_modes']
    return cfg


def make(ctx, kind=None, n=None, rich=True, near_field=None, tilt=None, shape=None, even=False,
         dec=None, cfg=None, randomize=True, min_side=10, max_side=16, extent=5.0, z=False, freeze=None, counts=None, strided=None):
    """-> Made"""
    from cdtools import models
    rng = ctx.rng
    kind = kind or ctx.choice(KINDS)
    nf = kind == 'fancy' and (ctx.flip(0.2) if near_field is None else near_field)
    tl = kind in ('fancy', 'multislice') and not nf and ctx.flip(0.3) if tilt is None else tilt
    if shape is None and even:
        shape = (2 * ctx.integer(min_side // 2, max_side // 2), 2 * ctx.integer(min_side // 2, max_side // 2))
    kw = {}
    if kind == 'bragg':
        # A high numerical aperture: pixels of 8 to 40 wavelengths, as single precision is not
        # enough for the phases of a far propagation at small angles
        kw = dict(distance=ctx.uniform(8, 40) * 13 * 55e-6, p_row=ctx.uniform(45e-6, 65e-6),
                  p_col=ctx.uniform(45e-6, 65e-6))
    s = gen.make_spec(rng, n=n or ctx.integer(4, 9), shape=shape, **kw, min_side=min_side, max_side=max_side,
                      extent=extent, basis_tilt=tl, z=z or kind == 'bragg')
    d = dict(mask=None, background=None, qe_mask=None, intensities=None, orientation=None)
    d.update(dec or {})
    if kind in ('simple', 'bragg') and (dec or {}).get('orientation') is None:
        d['orientation'] = False
    gen.decorate(rng, s, **d)
    if counts is None and ctx.flip(0.1) or counts:
        # photon counts which are stored as integers, as detectors deliver them
        s.raw_type = ctx.choice(['uint16', 'int16', 'int32', 'int64', 'uint32'])
        s.patterns = np.minimum(np.rint(s.patterns), 30000).astype('int32' if s.raw_type != 'int64' else 'int64')
    if ctx.flip(0.12):
        # a dataset which is made in memory, of numbers and arrays of any type
        gen.vary(ctx, s)
    cfg = dict(cfg or {})
    if kind == 'fancy':
        c = fancy_cfg(ctx, s, rich)
        c.update(cfg)
        if nf:
            c['near_field'] = True
            c['fourier_probe'] = c['fourier_probe'] if 'fourier_probe' in c else False
            c['scattering_mode'] = c.get('scattering_mode')
            M = 1.0
            if c.get('propagation_distance') is not None:
                c['propagation_distance'] = ctx.uniform(0.3, 2) * s.distance
                M = (c['propagation_distance'] + s.distance) / c['propagation_distance']
            s.obj_basis = s.basis / M
            s.M = M
            s.translations = gen.pix_to_trans(s.obj_basis, s.pix)
            s.translations[:, 2] = 0
        s.near_field = nf
        if c.get('n_modes', 1) > 1 and c.get('dm_rank') not in (None, 0) and False:
            pass
        ds = gen.build(s)
        m = models.FancyPtycho.from_dataset(ds, **c)
    elif kind == 'simple':
        c = {}
        ds = gen.build(s)
        m = models.SimplePtycho.from_dataset(ds)
    elif kind == 'multislice':
        r = ctx
        nm = r.choice([1, 1, 2, 3])
        dx = np.linalg.norm(s.obj_basis, axis=0).min()
        c = dict(dz=float(r.uniform(0.02, 0.4) * dx ** 2 / s.wavelength * r.choice([1, 1, -1])),
                 nz=r.integer(1, 3), n_modes=nm, obj_padding=r.integer(4, 9), loss=r.choice(LOSSES))
        if rich:
            c.update(dm_rank=r.choice([None, None, -1, r.integer(1, nm)]),
                     translation_scale=r.choice([1, 1, 3]),
                     probe_support_radius=_opt(r, 0.3, lambda: r.uniform(0.25, 0.5) * min(s.shape)),
                     probe_fourier_crop=_opt(r, 0.25, lambda: r.integer(1, 2)),
                     propagator_fourier_crop=_opt(r, 0.25, lambda: r.integer(1, 3)),
                     oversampling=r.choice([1, 1, 2]),
                     fourier_probe=r.flip(0.25),
                     exponentiate_obj=r.flip(0.4),
                     randomize_ang=r.choice([0, 0.5]),
                     simulate_probe_translation=r.flip(0.2),
                     simulate_finite_pixels=r.flip(0.15))
        c.update(cfg)
        ds = gen.build(s)
        m = models.MultislicePtycho.from_dataset(ds, **c)
    elif kind == 'bragg':
        r = ctx
        c = dict(n_modes=r.choice([1, 1, 2]), obj_padding=r.integer(4, 9), loss=r.choice(LOSSES))
        ang = r.uniform(-0.4, 0.4)
        ax = r.uniform(0, 2 * np.pi)
        normal = gen.rot([np.cos(ax), np.sin(ax), 0], ang) @ np.array([0, 0, 1.])
        c['surface_normal'] = normal
        if rich:
            c.update(translation_scale=r.choice([1, 1, 3]),
                     probe_support_radius=_opt(r, 0.3, lambda: r.uniform(0.25, 0.5) * min(s.shape)),
                     oversampling=r.choice([1, 1, 2]),
                     propagate_probe=r.flip(0.6), correct_tilt=r.flip(0.5), lens=r.flip(0.3))
        c.update(cfg)
        # Positions which are sensible in pixels of the tilted sample
        ob = bragg_obj_basis(s.obj_basis, c['surface_normal'])
        v = s.pix @ ob.T
        s.translations = v.copy()
        s.prop = rng.uniform(-1, 1, s.n) * 0.3 * np.linalg.norm(s.obj_basis, axis=0).min() ** 2 / s.wavelength
        s.translations[:, 2] = v[:, 2] - s.prop
        s.true_obj_basis = ob
        ds = gen.build(s)
        m = models.Bragg2DPtycho.from_dataset(ds, **c)
    else:
        r = ctx
        ov = r.choice([1, 1, 2]) if rich else 1
        ov = cfg.get('oversampling', ov)
        psh = tuple(x * ov for x in s.shape)
        npr = r.choice([1, 2, 3])
        probe = np.stack([gen.smooth_field(rng, psh) * np.sqrt(s.patterns[0].sum() / (k + 1) / np.prod(psh))
                          for k in range(npr)]).astype(np.complex64)
        c = dict(n_modes=r.choice([1, 1, 2]), loss=r.choice(LOSSES), oversampling=ov)
        if rich:
            c.update(obj_size=_opt(r, 0.6, lambda: np.array([r.integer(3, psh[0] - 1), r.integer(3, psh[1] - 1)])),
                     weight_matrix=r.flip(), exponentiate_obj=r.flip(0.3),
                     probe_threshold=r.choice([0, 0, 0.3]),
                     initialization=r.choice(['random', 'uniform']))
            c['phase_only'] = c['exponentiate_obj'] and r.flip()
        c.update(cfg)
        ds = gen.build(s)
        m = models.RPI.from_dataset(ds, t.as_tensor(probe), **c)
        s.probe = probe
    made = Made(kind=kind, spec=s, dataset=ds, model=m, cfg=c)
    if randomize:
        scramble(ctx, made)
    if freeze is None and ctx.flip(0.15) or freeze:
        # parameters which are known, or no longer refined
        for k, p in m.named_parameters():
            if k != 'obj' and ctx.flip(0.4):
                p.requires_grad = False
    if strided is None and ctx.flip(0.1) or strided:
        # what is given as a first guess need not be stored row by row
        for k, p in m.named_parameters():
            if p.dim() > 1 and ctx.flip():
                p.data = p.data.transpose(-1, -2).contiguous().transpose(-1, -2)
                ctx.note('strided_parameters')
    return made


def bragg_obj_basis(ew_basis, normal):
    """The vectors of the sample plane which project on the exit wave basis, along the normal of
    the exit wave plane"""
    n_ew = gen.unit(np.cross(ew_basis[:, 1], ew_basis[:, 0]))
    n = np.asarray(normal, dtype=np.float64)
    out = np.empty((3, 2))
    for k in range(2):
        b = ew_basis[:, k]
        out[:, k] = b - n_ew * (n @ b) / (n @ n_ew)
    return out


def scramble(ctx, made, scale=1.0):
    """Give all parameters generic values, so that all of them influence the results"""
    rng = ctx.rng
    m = made.model
    with t.no_grad():
        def setp(p, v):
            p.data = t.as_tensor(np.asarray(v)).to(dtype=p.dtype)
        if made.kind != 'rpi':
            pr = tonp(m.probe)
            lead = pr.shape[:-2]
            f = np.empty(pr.shape, complex)
            for ix in np.ndindex(*lead):
                f[ix] = gen.smooth_field(rng, pr.shape[-2:], 0.2) * 0.4 / (1 + sum(ix))
            sup = tonp(m.probe_support) if hasattr(m, 'probe_support') else 1
            setp(m.probe, f * sup)
        ob = tonp(m.obj)
        f = np.empty(ob.shape, complex)
        for ix in np.ndindex(*ob.shape[:-2]):
            f[ix] = gen.smooth_field(rng, ob.shape[-2:], 0.2, amp=0.3)
        expo = bool(getattr(m, 'exponentiate_obj', False))
        if expo:
            v = f.real + 1j * np.abs(f.imag)
        else:
            v = 1 + f
        setp(m.obj, v)
        if getattr(m, 'translation_offsets', None) is not None:
            setp(m.translation_offsets,
                 rng.uniform(-1, 1, tuple(m.translation_offsets.shape)) / float(m.translation_scale))
        if getattr(m, 'weights', None) is not None:
            w = tonp(m.weights)
            if w.ndim == 1:
                setp(m.weights, w * rng.uniform(0.7, 1.3, w.shape))
            else:
                setp(m.weights, w + 0.3 * (rng.normal(size=w.shape) + 1j * rng.normal(size=w.shape)))
        if getattr(m, 'probe_fourier_shifts', None) is not None:
            setp(m.probe_fourier_shifts, rng.uniform(-0.5, 0.5, tuple(m.probe_fourier_shifts.shape)))
        if made.kind in ('fancy', 'multislice', 'bragg'):
            b = tonp(m.background)
            setp(m.background, np.abs(b) + rng.uniform(0, 1.0, b.shape))
        if getattr(m, 'qe_mask', None) is not None:
            setp(m.qe_mask, tonp(m.qe_mask) * rng.uniform(0.8, 1.0, tuple(m.qe_mask.shape)))


def pixel_positions(made, offsets=None):
    """Float64 pixel positions of the exposures, from the geometry of the spec and the offsets of
    the model, relative to the origin of the model"""
    s, m, c = made.spec, made.model, made.cfg
    ov = int(c.get('oversampling', 1) or 1)
    T = np.asarray(tonp(made.dataset.translations), dtype=np.float64)
    if made.kind == 'bragg':
        ob = made.spec.true_obj_basis
        n = np.cross(ob[:, 1], ob[:, 0])
    else:
        # Oversampling the detector widens the field of view, except in the near field
        ob = s.obj_basis / (ov if c.get('near_field') else 1)
        n = np.array([0, 0, 1.])
        if made.kind != 'simple':
            if s.sample_info is not None and 'orientation' in s.sample_info:
                n = s.sample_info['orientation'][2]
            if c.get('scattering_mode') in ('t', 'transmission'):
                n = np.array([0, 0, 1.])
    v = T.copy()
    v[:, 2] = -(n[0] * T[:, 0] + n[1] * T[:, 1]) / n[2]
    pix = v @ np.linalg.pinv(ob).T
    pix = pix - tonp(m.min_translation).astype(np.float64)
    if offsets is None and getattr(m, 'translation_offsets', None) is not None:
        offsets = tonp(m.translation_offsets).astype(np.float64)
    if offsets is not None:
        pix = pix + float(m.translation_scale) * offsets
    return pix


def avoid_integers(ctx, made, margin=2e-3):
    """Nudge the offsets until no position is close to an integer number of pixels, where the
    window jumps"""
    m = made.model
    if getattr(m, 'translation_offsets', None) is None:
        return
    for _ in range(50):
        p = pixel_positions(made)
        bad = np.abs(p - np.round(p)) < margin
        if not bad.any():
            return
        o = tonp(m.translation_offsets).copy()
        o[bad] += 5 * margin / float(m.translation_scale)
        m.translation_offsets.data = t.as_tensor(o)


def inputs_of(made, idx=None):
    ds = made.dataset
    idx = np.arange(len(ds)) if idx is None else np.asarray(idx)
    (i, tr), pats = ds[t.as_tensor(idx)]
    return (i, tr), pats
