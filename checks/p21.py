"""P21: the intensities which a model predicts are those of its documented forward model."""
import numpy as np, torch as t
from vf import gen, models as vm, refmodel as rm
from vf.core import tonp, Skip

RULE = ('models of all five ptychography and RPI classes, made from random datasets with random '
        'options and generic parameter values, evaluated on all, permuted, repeated, single and '
        'sliced exposures and compared with a float64 reference of the complete chain; distinct by '
        'class and options; a case is non-trivial when the prediction varies over the pattern')
ASSUMPTIONS = ['sub-pixel positions stay 0.002 pixels away from whole pixels, where the object '
               'window jumps', 'tolerance 4e-4 of the brightest pixel (single precision)',
               'Bragg cases use pixels of 8 to 40 wavelengths']
# Cases of the quick tier, relative to the numbers below
QUICK = 2
REQUIRE = {'fancy': 100, 'simple': 20, 'multislice': 60, 'bragg': 60, 'rpi': 60,
           'near_field': 15, 'saturated': 10, 'density_matrix': 15, 'oversampled': 40,
           'fourier_probe': 15, 'finite_pixels': 10, 'fourier_cropped': 15, 'qe_mask': 10}

RT = 4e-4


def sig_of(md):
    c = md.cfg
    return '/'.join(f'{k}={type(v).__name__ if isinstance(v, (float, np.ndarray)) else v}'
                    for k, v in sorted(c.items())
                    if k not in ('loss', 'units', 'panel_plot_mode', 'plot_level', 'obj_padding',
                                 'randomize_ang', 'initialization'))


def note_options(ctx, md):
    c, m = md.cfg, md.model
    ctx.note(md.kind)
    for k, name in (('near_field', 'near_field'), ('fourier_probe', 'fourier_probe'),
                    ('simulate_finite_pixels', 'finite_pixels'),
                    ('probe_fourier_crop', 'fourier_cropped'), ('saturation', 'saturated'),
                    ('exponentiate_obj', 'exponentiated'), ('use_qe_mask', 'qe_mask'),
                    ('n_obj_modes', 'object_modes'), ('allow_probe_fourier_shifts', 'probe_shifts')):
        if c.get(k):
            ctx.note(name)
    if (c.get('oversampling') or 1) > 1:
        ctx.note('oversampled')
    w = getattr(m, 'weights', None)
    if md.kind != 'rpi' and w is not None and w.dim() > 1:
        ctx.note('density_matrix')


def run(ctx, kind, **kw):
    md = vm.make(ctx, kind, **kw)
    vm.avoid_integers(ctx, md)
    m = md.model
    n = len(md.dataset)
    if kind == 'simple':
        p = vm.pixel_positions(md)
        if (np.abs(np.abs(p - np.floor(p)) - 0.5) < 2e-3).any():
            raise Skip()
    want = rm.forward(md, np.arange(n))
    if kind != 'simple' and ctx.flip(0.2):
        # somewhere inside the dynamic range
        md.cfg['saturation'] = float(np.quantile(want, ctx.uniform(0.3, 0.98)))
        m.saturation = t.as_tensor(md.cfg['saturation'])
        want = rm.forward(md, np.arange(n))
    note_options(ctx, md)
    ctx.param(kind=kind, cfg={k: str(v) for k, v in md.cfg.items()}, shape=md.spec.shape)
    ctx.sample(kind=kind, cfg={k: str(v) for k, v in md.cfg.items()}, shape=md.spec.shape)
    if np.ptp(want) > 1e-3 * want.max():
        ctx.sig(kind, sig_of(md), md.spec.shape)
    scale = np.abs(want).max()
    (i, tr), pats = vm.inputs_of(md)
    with t.no_grad():
        got = m(i, tr)
    ctx.close(got, want, f'forward:{kind}', rtol=RT, scale=scale, msg='all exposures')
    ctx.expect(got.dtype in (t.float32, getattr(t, getattr(md.spec, 'pos_type', 'float32'))), 'prediction_type', str(got.dtype))
    # other ways to ask for the exposures
    order = ctx.rng.permutation(n)[:ctx.integer(1, n)]
    if ctx.flip(0.3):
        order = np.concatenate([order, order[:1]])
    (i, tr), _ = vm.inputs_of(md, order)
    with t.no_grad():
        got = m.forward(i, tr)
    ctx.close(got, want[order], f'forward_subset:{kind}', rtol=RT, scale=scale, msg=f'{order}')
    a = ctx.integer(0, n - 1)
    if kind != 'rpi':
        sl = slice(a, ctx.integer(a + 1, n))
        (i, tr), _ = md.dataset[sl]
        with t.no_grad():
            got = m.forward(i, tr)
        ctx.close(got, want[sl], f'forward_slice:{kind}', rtol=RT, scale=scale, msg=str(sl))
    # the chain of the documented steps
    (i, tr), _ = vm.inputs_of(md, [a])
    with t.no_grad():
        ew = m.interaction(i, tr)
        det = m.forward_propagator(ew)
        meas = m.measurement(det)
    ctx.close(meas, want[a:a + 1], f'chain:{kind}', rtol=RT, scale=scale)
    if not (kind == 'bragg' and md.cfg.get('correct_tilt', True)) and kind != 'simple':
        with t.no_grad():
            back = m.backward_propagator(det)
        ctx.close(back, ew, f'backward:{kind}', rtol=5e-5, msg='backward after forward propagator')


def fancy(ctx):
    run(ctx, 'fancy')


def near(ctx):
    run(ctx, 'fancy', near_field=True)


def simple(ctx):
    run(ctx, 'simple')


def multislice(ctx):
    run(ctx, 'multislice')


def bragg(ctx):
    run(ctx, 'bragg')


def rpi(ctx):
    run(ctx, 'rpi')


def repeatable(ctx):
    """Predictions depend on the parameters and the exposures only: evaluating other exposures,
    with or without gradients, in training or evaluation mode does not change them"""
    md = vm.make(ctx)
    m = md.model
    before = gen.snapshot_model(m)
    (i, tr), _ = vm.inputs_of(md)
    tr0, i0 = tr.clone(), i.clone()
    a = m(i, tr)
    ctx.equal(tr, tr0, 'inputs_unchanged')
    ctx.equal(i, i0, 'inputs_unchanged')
    (j, tj), _ = vm.inputs_of(md, ctx.rng.permutation(len(md.dataset))[:2])
    m(j, tj).sum().backward()
    m.eval()
    with t.no_grad():
        b = m(i, tr)
    m.train()
    ctx.equal(b, a, 'repeatable')
    ctx.expect(not gen.same_snapshot(before, gen.snapshot_model(m)), 'repeatable',
               'evaluating the model changed its state')
    ctx.sig(md.kind, ctx.index)
    ctx.note('repeatable')


WORKLOADS = {'fancy': (fancy, 900, 12000), 'near': (near, 150, 2000), 'simple': (simple, 40, 300),
             'multislice': (multislice, 400, 5000), 'bragg': (bragg, 400, 5000),
             'rpi': (rpi, 300, 3000), 'repeatable': (repeatable, 60, 500)}
