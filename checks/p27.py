"""P27: simulated datasets and corrected positions describe what the model computes."""
import datetime, os
import numpy as np, torch as t
from cdtools.datasets import Ptycho2DDataset
from cdtools import models, tools
from vf import gen, ref, models as vm
from vf.core import tonp, Skip

RULE = ('models of all classes which simulate, in random states and configurations, random selections and orders of exposures at '
        'nominal and other positions, in all widths of computation; distinct by class, options and selection')
ASSUMPTIONS = ['single precision: predictions are compared to 3e-4 of the brightest value',
               'positions stay 0.003 pixels away from whole pixels, where the object window jumps',
               'Bragg models compute the distance along the beam from the nominal positions, their positions only are compared']
# Cases of the quick tier, relative to the numbers below
QUICK = 3
REQUIRE = {'fancy': 100, 'multislice': 100, 'bragg': 100, 'chunked': 120, 'repeated': 60, 'other_positions': 60, 'file': 60,
           'remade': 90, 'own_loss': 90, 'corrected': 200, 'corrected_prediction': 90, 'single_offset': 30, 'centered': 60}




def make(ctx, kind, **kw):
    dec = dict(orientation=True) if kind in ('fancy', 'multislice') and ctx.flip(0.4) else None
    md = vm.make(ctx, kind, n=ctx.integer(2, 6), min_side=8, max_side=12, dec=dec, **kw)
    vm.avoid_integers(ctx, md, 4e-3)
    return md


def simulate(ctx):
    kind = ctx.choice(['fancy', 'fancy', 'multislice', 'bragg'])
    md = make(ctx, kind)
    m, ds, s = md.model, md.dataset, md.spec
    n = s.n
    how = ctx.choice(['all', 'some', 'repeated', 'one'])
    idx = {'all': np.arange(n), 'some': ctx.rng.permutation(n)[:ctx.integer(1, n)],
           'repeated': ctx.rng.integers(0, n, ctx.integer(2, 9)), 'one': np.array([ctx.integer(0, n - 1)])}[how]
    if how == 'repeated':
        ctx.note('repeated')
    other = ctx.flip(0.35)
    tr = ds.translations[t.as_tensor(idx)].clone()
    if other:
        # positions between those of the scan
        j = ctx.rng.permutation(len(idx))
        a = t.as_tensor(ctx.rng.uniform(0.2, 0.8, (len(idx), 1)), dtype=tr.dtype)
        tr = a * tr + (1 - a) * tr[t.as_tensor(j)]
        ctx.note('other_positions')
    args = (t.as_tensor(idx), tr)
    kw = {}
    if kind != 'bragg' and ctx.flip(0.7):
        kw['calculation_width'] = ctx.choice([1, 2, ctx.integer(1, 12), len(idx)])
        if kw['calculation_width'] < len(idx):
            ctx.note('chunked')
    off_grid = m.translation_offsets is not None
    keep = tr.clone()
    sim = m.sim_to_dataset(args, **kw)
    with t.no_grad():
        one = [tonp(m.forward(t.as_tensor(idx[k:k + 1]), keep[k:k + 1]))[0] for k in range(len(idx))]
    want = np.array(one)
    ctx.expect(isinstance(sim, Ptycho2DDataset) and len(sim) == len(idx), 'simulated_dataset', f'{type(sim)} {len(sim)}')
    ctx.equal(tr, keep, 'positions_unchanged')
    ctx.equal(sim.translations, keep, 'simulated_positions')
    ctx.close(tonp(sim.patterns), want, 'simulated_patterns', rtol=2e-5, msg=f'{how} {kw}')
    geometry(ctx, md, sim)
    ctx.expect(isinstance(sim.entry_info, dict) and isinstance(sim.entry_info.get('start_time'), datetime.datetime), 'simulated_entry')
    ctx.note(kind)
    ctx.sig(kind, how, other, kw.get('calculation_width'), s.mask is not None, s.background is not None,
            md.cfg.get('oversampling'), bool(md.cfg.get('near_field')))
    # the model explains its own simulation
    if md.cfg.get('loss') != 'poisson nll':
        (i, T, *x), p = sim[:]
        with t.no_grad():
            out = m.forward(args[0], T)
            l = float(m.loss(p, out, mask=m.mask)) if kind != 'simple' else 0
            l0 = float(m.loss(p, 0 * out, mask=m.mask))
        ctx.expect(l <= 1e-6 * l0 + 1e-9, 'own_loss', f'{l} {l0}')
        ctx.note('own_loss')
    if ctx.flip(0.35):
        f = os.path.join(ctx.dir, 'sim.cxi')
        sim.to_cxi(f)
        back = Ptycho2DDataset.from_cxi(f)
        ctx.close(tonp(back.patterns), np.nan_to_num(want), 'stored_patterns', rtol=2e-5)
        ctx.close(tonp(back.translations), tonp(keep), 'stored_positions', rtol=1e-5)
        geometry(ctx, md, back)
        ctx.note('file')
    if len(idx) > 1 and ctx.flip(0.6):
        remake(ctx, md, sim, idx)


def geometry(ctx, md, sim):
    m, s = md.model, md.spec
    ctx.close(np.float64(tonp(sim.wavelength)), s.wavelength, 'simulated_wavelength', rtol=1e-5)
    g = sim.detector_geometry
    ctx.close(tonp(g['basis']), s.basis, 'simulated_basis', rtol=1e-5)
    ctx.close(np.float64(tonp(g['distance'])), s.distance, 'simulated_distance', rtol=1e-5)
    if s.mask is None:
        ctx.expect(sim.mask is None or bool(tonp(sim.mask).all()), 'simulated_mask')
    else:
        ctx.equal(tonp(sim.mask).astype(bool), s.mask, 'simulated_mask')
    ctx.require(isinstance(sim.sample_info, dict) and sim.sample_info.get('orientation') is not None, 'simulated_orientation',
                str(sim.sample_info))
    o = np.asarray(tonp(sim.sample_info['orientation']), dtype=float)
    ctx.close(o @ o.T, np.eye(3), 'orientation_orthonormal', rtol=1e-4, scale=1)
    ctx.close(np.linalg.det(o), 1.0, 'orientation_handed', rtol=1e-4, scale=1)
    ctx.close(o[2], tonp(m.surface_normal).astype(float), 'orientation_normal', rtol=1e-4, scale=1)
    ctx.expect(abs(o[0] @ np.array([0, 1., 0])) < 1e-4, 'orientation_axis', str(o))
    ctx.expect(not sim.patterns.requires_grad, 'simulated_is_data')


def remake(ctx, md, sim, idx):
    """A model of the simulated data has the geometry of the model which simulated"""
    m, c, kind = md.model, md.cfg, md.kind
    keys = {'fancy': ['oversampling', 'near_field', 'propagation_distance', 'scattering_mode', 'probe_fourier_crop', 'obj_padding'],
            'multislice': ['dz', 'nz', 'oversampling', 'propagation_distance', 'scattering_mode', 'probe_fourier_crop', 'obj_padding'],
            'bragg': ['oversampling', 'surface_normal', 'propagation_distance', 'obj_padding', 'propagate_probe']}[kind]
    kw = {k: c[k] for k in keys if k in c}
    if kind == 'bragg' and ctx.flip():
        # the orientation is stored with the dataset
        kw.pop('surface_normal', None)
    kw['correct_tilt'] = False
    if kind != 'bragg':
        kw.pop('correct_tilt')
    kw['obj_view_crop'] = 0
    new = type(m).from_dataset(sim, **kw)
    ctx.close(tonp(new.obj_basis), tonp(m.obj_basis).astype(float), 'remade_basis', rtol=2e-4, msg=f'{kind} {kw}')
    ctx.close(tonp(new.probe_basis), tonp(m.probe_basis).astype(float), 'remade_basis', rtol=2e-4, msg=f'{kind} {kw}')
    n0, n1 = tonp(m.surface_normal).astype(float), tonp(new.surface_normal).astype(float)
    ctx.close(n1 * np.sign(n0 @ n1), n0, 'remade_normal', rtol=2e-4, scale=1)
    ctx.expect(tuple(new.obj.shape[-2:]) >= tuple(np.array(new.probe.shape[-2:])), 'remade_object')
    ctx.note('remade')


def corrected(ctx):
    kind = ctx.choice(['fancy', 'fancy', 'multislice', 'bragg'])
    cfg = dict(simulate_probe_translation=False) if kind in ('fancy', 'multislice') else {}
    md = make(ctx, kind, cfg=cfg)
    m, ds, s = md.model, md.dataset, md.spec
    if ctx.flip(0.2):
        # a single exposure is off
        k = ctx.integer(0, s.n - 1)
        o = t.zeros_like(m.translation_offsets.data)
        o[k] = t.as_tensor(ctx.rng.uniform(-0.6, 0.6, 2), dtype=o.dtype) / float(m.translation_scale)
        m.translation_offsets.data = o
        ctx.note('single_offset')
    arg = ctx.choice([(), (ds,)])
    got = m.corrected_translations(*arg)
    ctx.expect(tuple(got.shape) == (s.n, 3), 'corrected_shape', str(tuple(got.shape)))
    pix = vm.pixel_positions(md)
    nominal = vm.pixel_positions(md, offsets=np.zeros((s.n, 2)))
    saved = ds.translations
    try:
        ds.translations = got.detach()
        at = vm.pixel_positions(md, offsets=np.zeros((s.n, 2)))
    finally:
        ds.translations = saved
    ctx.close(at, pix, 'corrected_positions', rtol=0, atol=2e-3, msg=f'{kind} scale {float(m.translation_scale)}')
    # the offset of the stage is the difference of the positions, exposure by exposure
    d = tonp(got).astype(float) - tonp(ds.translations)
    zero = np.abs(tonp(m.translation_offsets)).max(1) == 0
    ctx.expect((np.abs(d[zero]) <= 1e-5 * np.abs(tonp(ds.translations)).max()).all(), 'correction_of_others', str(d))
    ctx.note('corrected')
    ctx.sig('corrected', kind, len(arg), md.cfg.get('translation_scale'), md.cfg.get('oversampling'), bool(md.cfg.get('near_field')),
            s.sample_info is not None)
    if kind == 'bragg':
        return
    idx = np.arange(s.n)
    frac = np.abs(pix - np.round(pix)).min(1)
    idx = idx[frac > 3e-3]
    if not len(idx) or (pix < 0.01).any():
        return
    with t.no_grad():
        a = tonp(m.forward(t.as_tensor(idx), ds.translations[t.as_tensor(idx)]))
        keep = m.translation_offsets.data.clone()
        m.translation_offsets.data = t.zeros_like(keep)
        b = tonp(m.forward(t.as_tensor(idx), got.detach()[t.as_tensor(idx)]))
        m.translation_offsets.data = keep
    dose = np.abs(a).max()
    ctx.close(b, a, 'corrected_prediction', rtol=2e-3, scale=dose, msg=str({k: md.cfg.get(k) for k in ('near_field', 'oversampling')}))
    ctx.note('corrected_prediction')


def no_offsets(ctx):
    """Without recorded positions there is nothing to correct"""
    kind = ctx.choice(['fancy', 'multislice', 'bragg'])
    md = make(ctx, kind)
    m, ds = md.model, md.dataset
    m.translation_offsets.data = t.zeros_like(m.translation_offsets.data)
    ctx.close(m.corrected_translations(ds), tonp(ds.translations).astype(float), 'no_correction', rtol=0, atol=2e-7 * np.abs(tonp(ds.translations)).max())
    # positions of another dataset, for instance in another order
    order = ctx.rng.permutation(len(ds))
    o = t.as_tensor(ctx.rng.uniform(-1, 1, m.translation_offsets.shape), dtype=m.translation_offsets.dtype)
    m.translation_offsets.data = o
    a = tonp(m.corrected_translations(ds)) - tonp(ds.translations)
    other = Ptycho2DDataset(ds.translations[t.as_tensor(order)].clone(), ds.patterns, wavelength=ds.wavelength,
                            detector_geometry=ds.detector_geometry)
    b = tonp(m.corrected_translations(other)) - tonp(other.translations)
    ctx.close(b, a.astype(float), 'correction_of_given', rtol=1e-3, msg=kind)
    if m.original_translations is not None:
        ctx.equal(tonp(m.original_translations).astype(np.float32), tonp(ds.translations).astype(np.float32), 'recorded_positions')
    m.original_translations = None
    try:
        m.corrected_translations()
        ctx.violate('correction_of_nothing', 'no positions are known')
    except ValueError:
        pass
    ctx.sig('no_offsets', kind)


def centering(ctx):
    md = make(ctx, 'fancy')
    m = md.model
    def modes():
        p = tonp(m.probe).astype(complex)
        return ref.iff(p) if m.fourier_probe else p
    # a compact beam away from the center
    rng = ctx.rng
    P = modes()
    y, x = np.mgrid[:P.shape[-2], :P.shape[-1]]
    c = np.array(P.shape[-2:]) // 2 + rng.uniform(-1.5, 1.5, 2)
    g = np.exp(-((y - c[0]) ** 2 + (x - c[1]) ** 2) / (2 * 1.1 ** 2))
    P = P * g
    P[0] = P[0] + 3 * np.abs(P).max() * g
    data = ref.ff(P) if m.fourier_probe else P
    m.probe.data = t.as_tensor(data.astype(np.complex64))
    before = modes()
    m.center_probes(**ctx.choice([{}, dict(iterations=ctx.integer(3, 8))]))
    after = modes()
    ctx.expect(after.shape == before.shape and m.probe.dtype == t.complex64, 'centered_type', f'{after.shape} {m.probe.dtype}')
    G = lambda p: np.einsum('aij,bij->ab', p, p.conj())
    ctx.close(G(after), G(before), 'centered_modes', rtol=1e-3)
    I = (np.abs(after) ** 2).sum(0)
    got = np.array([(y * I).sum(), (x * I).sum()]) / I.sum()
    I0 = (np.abs(before) ** 2).sum(0)
    was = np.array([(y * I0).sum(), (x * I0).sum()]) / I0.sum()
    mid = np.array([(I.shape[0] - 1) / 2, (I.shape[1] - 1) / 2])
    ctx.expect(np.abs(got - mid).max() < 0.6 + 0.2 * np.abs(was - mid).max(), 'centered_beam', f'{was} -> {got}, {mid}')
    # one shift for all modes
    F0, F1 = np.fft.fft2(before), np.fft.fft2(after)
    ctx.close(np.abs(F1), np.abs(F0), 'centered_is_shift', rtol=1e-3)
    ph = F1 * F0.conj()
    for k in range(1, len(ph)):
        ctx.close(ph[k] * np.abs(ph[0]), ph[0] * np.abs(ph[k]), 'one_shift_for_all_modes', rtol=3e-3)
    ctx.sig('center', bool(m.fourier_probe), len(P), I.shape[0] % 2, I.shape[1] % 2)
    ctx.note('centered')


WORKLOADS = {'simulate': (simulate, 700, 9000), 'corrected': (corrected, 500, 6000), 'no_offsets': (no_offsets, 150, 1500),
             'centering': (centering, 150, 1500)}
