"""P07: looking at models and datasets changes nothing, results are snapshots, tools leave their inputs alone."""
import copy, io, os, pickle, contextlib
import numpy as np, torch as t
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from cdtools import tools, models
from cdtools.tools.analysis import analysis as analysis_module
from cdtools.tools import analysis as an, image_processing as ip, initializers as ini, propagators as pr, \
    interactions as it, measurements as me, losses as lo, plotting as pl, data as dt
from vf import gen, train as tr, models as vm
from vf.core import tonp, Skip

RULE = ('random sequences of read-only operations on models and datasets of all classes, before, between and after '
        'epochs, with complete snapshots of both around every operation; reconstructions which are watched '
        'compared with those which are not; inputs of all functions of the tools before and after the '
        'calls; distinct by class and sequence of operations, or function and arguments')
ASSUMPTIONS = ['when the model was last inspected and its figures belong to the display, not to the model',
               'making plots may fail for models without results to show, but still may not change anything']
REQUIRE = {'qe_mask_trained': 3, 'operations': 1200, 'sequences': 110, 'watched': 45, 'results_kept': 40, 'dataset_operations': 400, 'fn_pair': 5, 'tools': 1200,
           'dataset_after_training': 30, 'other_model_after_training': 20, 'edited_results': 30, 'op_forward': 20,
           'refused': 0}


# --- models ------------------------------------------------------------------------------------------------
def whole(m):
    s = gen.snapshot_model(m)
    s['grads'] = {k: (None if p.grad is None else tonp(p.grad).copy()) for k, p in m.named_parameters()}
    s['attributes'] = sorted(k for k in vars(m) if k not in ('figs', 'last_inspected_time', 'slider'))
    s['plain'] = {k: repr(v) for k, v in vars(m).items() if isinstance(v, (int, float, str, bool, tuple, slice)) and
                  k not in ('last_inspected_time',)}
    s['rng'] = t.get_rng_state().numpy().copy()
    s['nprng'] = pickle.dumps(np.random.get_state())
    s['optimizer'] = None
    return s


def flat(a):
    if isinstance(a, dict):
        return {k: flat(v) for k, v in a.items()}
    if isinstance(a, np.ndarray):
        return (str(a.dtype), a)
    return a


def changed(a, b):
    return gen.same_snapshot(flat(a), flat(b))


def operations(md, ctx):
    m, ds = md.model, md.dataset
    idx = lambda: t.as_tensor(ctx.rng.permutation(len(ds))[:ctx.integer(1, len(ds))].copy())

    def forward():
        i = idx()
        with (t.no_grad() if ctx.flip() else contextlib.nullcontext()):
            return m.forward(i, ds.translations[i])

    def loss():
        i = idx()
        sim = m.forward(i, ds.translations[i])
        return m.loss(ds.patterns[i], sim, mask=m.mask) if hasattr(m, 'mask') else m.loss(ds.patterns[i], sim)

    def steps():
        i = idx()
        ew = m.interaction(i, ds.translations[i])
        w = m.forward_propagator(ew)
        m.measurement(w)
        if not (md.kind == 'bragg' and md.cfg.get('correct_tilt')) and md.kind != 'multislice' or True:
            try:
                m.backward_propagator(w)
            except NotImplementedError:
                pass

    def deep():
        copy.deepcopy(m)

    def to_file():
        m.save_to_h5(os.path.join(ctx.dir, 'o.h5'), *a)

    def checkpoint():
        m.save_checkpoint(*a, checkpoint_file=os.path.join(ctx.dir, 'o.pt'))
    def context():
        with m.save_on_exit(os.path.join(ctx.dir, 'e.h5'), *a):
            m.report()
    a = (ds,) if md.kind != 'rpi' and ctx.flip() else ()
    if md.kind == 'bragg' or md.kind == 'simple' and False:
        a = (ds,)
    ops = dict(forward=forward, loss=loss, steps=steps, report=m.report, deepcopy=deep, state_dict=m.state_dict,
               save_results=lambda: m.save_results(*a), save_to_h5=to_file, save_checkpoint=checkpoint,
               save_on_exit=context, geometry=m.get_detector_geometry, str=lambda: str(m),
               plot_loss_history=m.plot_loss_history,
               restore=lambda: type(m).from_results_dict(m.save_results(*a)),
               compare=lambda: m.compare(ds, logarithmic=ctx.flip()))
    if md.kind in ('fancy', 'multislice', 'bragg'):
        ops['sim_to_dataset'] = lambda: m.sim_to_dataset((lambda i: (i, ds.translations[i]))(idx()))
    if md.kind in ('fancy', 'multislice', 'bragg'):
        ops['corrected_translations'] = lambda: m.corrected_translations(*a)
    if md.kind == 'fancy':
        ops['get_probe_intensities'] = m.get_probe_intensities
        ops['plot_illumination_intensity'] = lambda: m.plot_illumination_intensity(plt.figure(), ds)
        ops['plot_translations_and_originals'] = lambda: m.plot_translations_and_originals(plt.figure(), ds)
        if tonp(m.weights).ndim > 1:
            ops['plot_wavefront_variation'] = lambda: m.plot_wavefront_variation(
                ds, mode=ctx.choice(['amplitude', 'root_sum_intensity', 'phase']))
    heavy = dict(inspect=lambda: m.inspect(*((ds,) if ctx.flip() else ()), replot_all=ctx.flip(0.3)),
                 inspect_save=lambda: (m.inspect(ds), m.save_figures(prefix=ctx.dir + '/f', extension='.png')))
    return ops, heavy


def trained(ctx, md, thread=False):
    g, _ = tr.start(md, tr.phase(ctx, md, opts=('Adam',), schedule=False, thread=thread, max_it=2))
    return tr.collect(ctx, md, g)


def model_reading(ctx):
    md = vm.make(ctx, min_side=8, max_side=12, dec=dict(qe_mask=ctx.flip(0.4)))
    if md.model is None:
        raise Skip()
    m, ds = md.model, md.dataset
    if ctx.flip() and trained(ctx, md) is None:
        return
    if ctx.flip(0.3):
        # gradients which are there stay
        for p in m.parameters():
            if p.requires_grad:
                p.grad = t.randn_like(p)
    m.panel_plot_mode = ctx.flip()
    m.plot_level = ctx.choice([0, 1, 2, np.inf])
    ops, heavy = operations(md, ctx)
    names = [ctx.choice(list(ops)) for _ in range(ctx.integer(8, 14))]
    if ctx.flip(0.35):
        names.insert(ctx.integer(0, len(names)), ctx.choice(list(heavy)))
    done = []
    out = io.StringIO()
    for name in names:
        a, d = whole(m), gen.snapshot_dataset(ds)
        a.pop('grads') if name in ('x',) else None
        ctx.param(kind=md.kind, cfg=md.cfg, op=name, before=done)
        try:
            with contextlib.redirect_stdout(out):
                (ops.get(name) or heavy[name])()
        except Exception:
            if name in heavy or name.startswith(('plot', 'compare')):
                ctx.note('refused')
            else:
                raise
        finally:
            plt.close('all')
        bad = changed(a, whole(m))
        ctx.expect(not bad, f'model_changed:{name}', lambda: f'{md.kind}: {bad}')
        bad2 = gen.same_snapshot(d, gen.snapshot_dataset(ds))
        ctx.expect(not bad2, f'dataset_changed:{name}', lambda: f'{md.kind}: {bad2}')
        done.append(name)
        ctx.note('operations')
        ctx.note('op_' + name)
    ctx.note('sequences')
    ctx.sig(md.kind, done)


def watched(ctx):
    """Watching a reconstruction does not change it"""
    md = vm.make(ctx, min_side=8, max_side=12)
    if md.model is None:
        raise Skip()
    ph = tr.phase(ctx, md, opts=('Adam', 'SGD'), schedule=False, max_it=3, shuffle=True)
    ph['route'] = 'recon'
    runs = []
    base = md.model
    seed = int(ctx.rng.integers(1 << 30))
    seen = []
    for look in (False, True):
        md.model = copy.deepcopy(base)
        m = md.model
        m.panel_plot_mode, m.plot_level = bool(seed & 1), seed % 3
        ops, heavy = operations(md, ctx)
        t.manual_seed(seed)
        g, _ = tr.start(md, ph)
        losses = []
        try:
            for l in g:
                losses.append(float(l))
                if look:
                    for name in [ctx.choice(list(ops)) for _ in range(3)] + ([ctx.choice(list(heavy))] if ctx.flip(0.3) else []):
                        with contextlib.redirect_stdout(io.StringIO()):
                            try:
                                (ops.get(name) or heavy[name])()
                            except Exception:
                                if name not in heavy and not name.startswith(('plot', 'compare')):
                                    raise
                        seen.append(name)
                    plt.close('all')
        except RuntimeError:
            if tr.finite(m):
                raise
            ctx.note('diverged')
            return
        runs.append((losses, gen.snapshot_model(m), tr.strip(m.training_history)))
    if not all(np.isfinite(runs[0][0])):
        return
    ctx.param(kind=md.kind, phase=ph, seen=seen)
    (a, sa, ha), (b, sb, hb) = runs
    ctx.expect(a == b, 'watched:losses', lambda: f'{a} {b} {seen}')
    sa.pop('training_history'), sb.pop('training_history')
    bad = changed(sa, sb)
    ctx.expect(not bad, 'watched:model', lambda: f'{bad} after {seen}')
    ctx.expect(ha == hb, 'watched:history', lambda: f'{ha!r} {hb!r}')
    ctx.note('watched')
    ctx.sig('watched', md.kind, ph['opt'], seen)


def kept(ctx):
    """Saved results, copies and datasets do not follow the model, and the other way round"""
    md = vm.make(ctx, 'fancy' if ctx.flip(0.3) else None, min_side=8, max_side=12, dec=dict(qe_mask=ctx.flip(0.8), background=ctx.flip(0.7),
                                                         mask=ctx.flip(0.7), intensities=ctx.flip(0.7)), randomize=ctx.flip(0.4))
    if md.model is None:
        raise Skip()
    m, ds = md.model, md.dataset
    # every parameter is optimized
    for k, p in m.named_parameters():
        if ctx.flip(0.8) and k != 'translation_offsets':
            p.requires_grad = True
    args = (ds,) if md.kind in ('fancy', 'multislice', 'bragg') and ctx.flip() else ()
    if md.kind == 'bragg':
        args = (ds,)
    cls = type(m)
    ctx.param(kind=md.kind, cfg=md.cfg)
    res = m.save_results(*args)
    want = copy.deepcopy(res)
    restored = cls.from_results_dict(res) if md.kind != 'x' else None
    rs = gen.snapshot_model(restored)
    cfg = dict(md.cfg)
    second = None
    if md.kind == 'rpi':
        pr0 = t.as_tensor(md.spec.probe)
        keep = pr0.clone()
        second = cls.from_dataset(ds, pr0, **cfg)
    else:
        second = cls.from_dataset(ds, **cfg)
    for k, p in second.named_parameters():
        if k != 'translation_offsets':
            p.requires_grad = True
    ss = gen.snapshot_model(second)
    simulated = None
    if md.kind in ('fancy', 'multislice'):
        simulated = m.sim_to_dataset((t.arange(len(ds)), ds.translations))
        sims = gen.snapshot_dataset(simulated)
    d = gen.snapshot_dataset(ds)
    first = gen.snapshot_model(m)
    with t.no_grad():
        pass
    if trained(ctx, md, thread=False) is None:
        return
    if isinstance(getattr(m, 'qe_mask', None), t.nn.Parameter) and m.qe_mask.requires_grad and ds.qe_mask is not None:
        ctx.note('qe_mask_trained')
    ctx.expect(bool(changed(first, gen.snapshot_model(m))), 'harness', 'nothing was trained')
    bad = gen.same_snapshot(d, gen.snapshot_dataset(ds))
    ctx.expect(not bad, 'training_changes_dataset', lambda: f'{md.kind} {bad}')
    ctx.note('dataset_after_training')
    bad2 = changed(ss, gen.snapshot_model(second))
    ctx.expect(not bad2, 'training_changes_other_model', lambda: f'{md.kind} {bad2}')
    bad3 = changed(rs, gen.snapshot_model(restored))
    ctx.expect(not bad3, 'training_changes_restored_model', lambda: f'{md.kind} {bad3}')
    ctx.note('other_model_after_training')
    bad4 = changed(want, res)
    ctx.expect(not bad4, 'training_changes_results', lambda: f'{md.kind} {bad4}')
    if simulated is not None:
        bad5 = gen.same_snapshot(sims, gen.snapshot_dataset(simulated))
        ctx.expect(not bad5, 'training_changes_simulation', lambda: f'{md.kind} {bad5}')
    ctx.note('results_kept')
    # the user works on the results
    res = m.save_results(*args)
    now = gen.snapshot_model(m)
    d = gen.snapshot_dataset(ds)
    def spoil(x):
        for v in x.values():
            if isinstance(v, dict):
                spoil(v)
            elif isinstance(v, np.ndarray) and v.size and v.flags.writeable and v.dtype.kind in 'fciub':
                v[...] = 0 if v.dtype.kind == 'b' else v * 3 + 1
    spoil(res)
    bad6 = changed(now, gen.snapshot_model(m))
    ctx.expect(not bad6, 'results_change_model', lambda: f'{md.kind} {bad6}')
    bad7 = gen.same_snapshot(d, gen.snapshot_dataset(ds))
    ctx.expect(not bad7, 'results_change_dataset', lambda: f'{md.kind} {bad7}')
    ctx.note('edited_results')
    # a copy is a copy
    cp = copy.deepcopy(m)
    for p in cp.parameters():
        p.data.mul_(2)
    cp.loss_history.append(1.0)
    bad8 = changed(now, gen.snapshot_model(m))
    ctx.expect(not bad8, 'copy_changes_model', lambda: f'{md.kind} {bad8}')
    ctx.sig('kept', md.kind, sorted(md.cfg), bool(args))


def dataset_reading(ctx):
    n = ctx.integer(4, 8)
    s, ds = gen.small_dataset(ctx.rng, n=n, shape=(ctx.integer(6, 12), ctx.integer(6, 12)), mask=ctx.flip(),
                              background=ctx.flip(), qe_mask=ctx.flip(), intensities=ctx.flip())
    if ctx.flip(0.3):
        ds.get_as(dtype=t.float64) if False else ds.get_as(device='cpu')

    def loader():
        for x in t.utils.data.DataLoader(ds, batch_size=ctx.integer(1, 4), shuffle=False):
            pass

    def edit_copy():
        c = copy.deepcopy(ds)
        c.patterns += 1
        c.translations *= 2
        if c.mask is not None:
            c.mask[:] = False
        c.detector_geometry['basis'] = c.detector_geometry['basis'] * 2

    def parts():
        for h in ds.split():
            h.patterns += 1
            h.translations += 1
            if h.mask is not None:
                h.mask[:] = False
            if getattr(h, 'intensities', None) is not None:
                h.intensities += 2
            h.pad(1)

    def item():
        k = ctx.integer(0, n - 1)
        (i, tr_), p = ds[k]

    def models_of():
        k = ctx.choice(['fancy', 'simple', 'multislice'])
        t.manual_seed(1)
        if k == 'fancy':
            models.FancyPtycho.from_dataset(ds, n_modes=2, obj_padding=3, use_qe_mask=ctx.flip(),
                                            probe_support_radius=3 if ctx.flip() else None,
                                            propagation_distance=1e-5 if ctx.flip() else None)
        elif k == 'simple':
            models.SimplePtycho.from_dataset(ds)
        else:
            models.MultislicePtycho.from_dataset(ds, dz=1e-7, nz=2, obj_padding=3)
    ops = dict(item=item, slice=lambda: ds[ctx.integer(0, n - 2):], all=lambda: ds[:], length=lambda: len(ds), loader=loader,
               to_cxi=lambda: ds.to_cxi(os.path.join(ctx.dir, 'd.cxi')), split=parts, copy=edit_copy,
               spectral=lambda: an.calc_spectral_info(ds, nbins=5), models=models_of,
               sharp=lambda: ini.SHARP_style_probe(ds, propagation_distance=ctx.choice([None, 1e-6]), oversampling=ctx.choice([1, 2])),
               gaussian=lambda: ini.gaussian_probe(ds, s.obj_basis, s.shape, (1e-7, 2e-7), propagation_distance=1e-6),
               stem=lambda: ini.STEM_style_probe(ds, tuple(s.shape), None, 1.0),
               inspect=lambda: ds.inspect(logarithmic=ctx.flip(), plot_mask=ctx.flip(), plot_mean_pattern=ctx.flip()),
               mean=lambda: ds.plot_mean_pattern())
    done = []
    for _ in range(ctx.integer(6, 9)):
        name = ctx.choice([k for k in ops if k != 'inspect' or ctx.flip(0.4)])
        a = gen.snapshot_dataset(ds)
        ctx.param(op=name, before=done)
        try:
            ops[name]()
        except Exception:
            if name not in ('inspect', 'mean', 'stem'):
                raise
            ctx.note('refused')
        finally:
            plt.close('all')
        bad = gen.same_snapshot(a, gen.snapshot_dataset(ds))
        ctx.expect(not bad, f'dataset_changed:{name}', lambda: f'{bad} after {done}')
        done.append(name)
        ctx.note('dataset_operations')
        ctx.note('ds_' + name)
    ctx.sig('dataset', done)


# --- tools -------------------------------------------------------------------------------------------------
def table(ctx):
    r = ctx.rng
    a, b = ctx.integer(6, 12), ctx.integer(6, 12)
    n, k = ctx.integer(2, 4), ctx.integer(1, 3)
    T = lambda x: t.as_tensor(np.array(x))
    npy = ctx.flip(0.4)
    A = (lambda x: np.array(x)) if npy else T
    c64 = lambda *sh: (r.normal(size=sh) + 1j * r.normal(size=sh)).astype(np.complex64)
    f32 = lambda *sh: r.uniform(0.5, 3, sh).astype(np.float32)
    basis = (np.array([[0, -1e-7], [-1.3e-7, 0], [0, 0.]])).astype(np.float32)
    pix = f32(n, 2)
    tr3 = (r.normal(size=(n, 3)) * 1e-6).astype(np.float32)
    normal = gen.unit(np.array([r.normal() * .2, r.normal() * .2, 1.])).astype(np.float32)
    big = c64(40, 44)
    mask = r.random((a, b)) > 0.2
    pats = f32(n, a, b)
    spec = {
        'product_svd': (an.product_svd, [A(c64(9, k)), A(c64(k, 20))], {}),
        'orthogonalize_probes': (an.orthogonalize_probes, [A(c64(n, a, b))], {}),
        'orthogonalize_probes_w': (an.orthogonalize_probes, [A(c64(n, a, b))],
                                   dict(weight_matrix=A(c64(2 * n, n)), return_reexpressed_weights=True)),
        'standardize': (an.standardize, [A(c64(k, a, b)), A(c64(30, 28))], dict(correct_ramp=ctx.flip())),
        'standardize_2d': (an.standardize, [A(c64(a, b)), A(c64(30, 28))], dict(correct_ramp=ctx.flip())),
        'synthesize': (an.synthesize_reconstructions, [[T(c64(k, a, b)) for _ in range(n)], [T(c64(44, 46)) for _ in range(n)]],
                       dict(obj_slice=np.s_[5:40, 6:40])),
        'prtf': (an.calc_consistency_prtf, [A(c64(20, 22)), [A(c64(20, 22)) for _ in range(n)], A(basis)],
                 dict(obj_slice=np.s_[2:18, 2:18])),
        'deconvolved': (an.calc_deconvolved_cross_correlation, [A(c64(a, b)), A(c64(a, b))], dict(im_slice=np.s_[:, :])),
        'frc': (an.calc_frc, [A(c64(20, 22)), A(c64(20, 22)), A(basis)], dict(nbins=5, limit=ctx.choice(['side', 'corner']))),
        'vn_entropy': (an.calc_vn_entropy, [(lambda x: np.einsum('nij,nkj->nik', x, x.conj()))(c64(n, 3, 3))], {}),
        'mode_power': (an.calc_mode_power_fractions, [T(c64(n, a, b))], dict(weight_matrix=ctx.choice([None, T(c64(5, n))]))),
        'rms': (an.calc_rms_error, [A(c64(n, a, b)), A(c64(n, a, b))], dict(align_phases=ctx.flip(), normalize=ctx.flip())),
        'fidelity': (an.calc_fidelity, [A(c64(n, a, b)), A(c64(k, a, b))], {}),
        'generalized_rms': (an.calc_generalized_rms_error, [A(c64(n, a, b)), A(c64(n, a, b))], dict(normalize=ctx.flip())),
        'generalized_frc': (analysis_module.calc_generalized_frc, [A(c64(n, 16, 18)), A(c64(n, 16, 18)), A(basis)], dict(nbins=4)),
        'phase_ramp': (an.remove_phase_ramp, [c64(20, 22), np.s_[3:16, 3:16]], dict(probe=ctx.choice([None, c64(k, a, b)]))),
        'amplitude_exponent': (an.remove_amplitude_exponent, [c64(20, 22), np.s_[3:16, 3:16]],
                               dict(probe=c64(k, a, b), weights=f32(n), translations=tr3, basis=basis)),
        'hann': (ip.hann_window, [A(f32(a, b))], {}),
        'centroid': (ip.centroid, [T(f32(n, a, b))], {}),
        'centroid_sq': (ip.centroid_sq, [T(c64(n, a, b))], dict(comp=True)),
        'sinc_shift': (ip.sinc_subpixel_shift, [T(c64(a, b)), (1.3, -0.4)], {}),
        'pixel_shift': (ip.find_pixel_shift, [T(big), T(c64(40, 44))], {}),
        'find_shift': (ip.find_shift, [T(big), T(np.roll(big, (2, -3), (0, 1)))], {}),
        'subpixel_shift': (ip.find_subpixel_shift, [T(big), T(big.copy())], dict(search_around=T(np.array([1, 2])))),
        'convolve': (ip.convolve_1d, [T(c64(a, b)), T(c64(b))], dict(dim=1, fftshift_kernel=ctx.flip())),
        'upsample': (ip.fourier_upsample, [T(c64(n, a, b))], dict(preserve_mean=ctx.flip())),
        'center': (ip.center, [T(c64(n, a, b))], dict(use_power=ctx.flip())),
        'center_2d': (ip.center, [T(c64(a, b))], {}),
        'exit_wave_geometry': (ini.exit_wave_geometry, [T(basis), (a, b), 1e-9, 0.1], dict(oversampling=2)),
        'object_setup': (ini.calc_object_setup, [(a, b), T(pix)], dict(padding=3)),
        'gaussian': (ini.gaussian, [(a, b), [2., 3.]], dict(curvature=[0.1, 0.2], center=[3., 4.])),
        'subdominant': (ini.generate_subdominant_modes, [T(c64(a, b)), 3], dict(circular=ctx.flip())),
        'spectral_init': (ini.RPI_spectral_init, [T(pats[0]), T(c64(*ctx.choice([(k, a, b), (a, b)]))), (4, 4)],
                          dict(mask=T(mask), background=T(f32(a, b) * 0.1))),
        'far_field': (pr.far_field, [T(c64(n, a, b))], {}),
        'inverse_far_field': (pr.inverse_far_field, [T(c64(n, a, b))], {}),
        'near_field': (pr.near_field, [T(c64(n, a, b)), T(c64(a, b))], {}),
        'inverse_near_field': (pr.inverse_near_field, [T(c64(n, a, b)), T(c64(a, b))], {}),
        'as_prop': (pr.generate_angular_spectrum_propagator, [(a, b), A(np.array([1e-7, 1.2e-7])), 1e-9,
                                                              float(r.choice([-1, 1]) * 1e-5)],
                    dict(bandlimit=ctx.choice([None, 0.5]))),
        'gas_prop': (pr.generate_generalized_angular_spectrum_propagator,
                     [(a, b), A(basis), 1e-9, A(np.array([1e-7, 0, 1e-5], dtype=np.float32))],
                     dict(propagation_vector=ctx.choice([None, A(normal)]))),
        'high_NA_map': (pr.generate_high_NA_k_intensity_map,
                        [A(basis), A(np.array([[0, -5e-5], [-5e-5, 0], [0, 0.]])), (a, b), 0.001, 1e-9], dict(lens=ctx.flip())),
        'high_NA': (pr.high_NA_far_field, [T(c64(n, a, b)), T(r.uniform(-1, 1, (a, b, 2)).astype(np.float32))],
                    dict(intensity_map=ctx.choice([None, T(f32(a, b))]))),
        'to_pixel': (it.translations_to_pixel, [T(basis), T(tr3)], dict(surface_normal=T(normal))),
        'to_translations': (it.pixel_to_translations, [T(basis), T(pix)], dict(surface_normal=T(normal))),
        'project': (it.project_translations_to_sample, [T(basis), T(tr3)], {}),
        'round': (it.ptycho_2D_round, [T(c64(k, a, b)), T(c64(20, 20)), T(pix)], dict(multiple_modes=True)),
        'linear': (it.ptycho_2D_linear, [T(c64(a, b)), T(c64(20, 20)), T(pix)], dict(shift_probe=ctx.flip())),
        'sinc': (it.ptycho_2D_sinc, [T(c64(k, a, b)), T(c64(20, 20)), T(pix)], dict(shift_back_ew=ctx.flip())),
        'rpi': (it.RPI_interaction, [T(c64(a, b)), T(c64(4, 5))], {}),
        'intensity': (me.intensity, [T(c64(n, 8, 10))], dict(saturation=1., oversampling=2, detector_slice=np.s_[1:, :3])),
        'incoherent': (me.incoherent_sum, [T(c64(n, k, 8, 10))], dict(simulate_finite_pixels=ctx.flip())),
        'background': (me.quadratic_background, [T(c64(n, k, a, b)), T(f32(a, b))],
                       dict(measurement=me.incoherent_sum, qe_mask=T(f32(a, b)), saturation=4.)),
        'amplitude_mse': (lo.amplitude_mse, [T(pats), T(f32(n, a, b))], dict(mask=T(mask), use_sum=ctx.flip())),
        'intensity_mse': (lo.intensity_mse, [T(pats), T(f32(n, a, b))], dict(mask=T(mask), use_sum=ctx.flip())),
        'poisson': (lo.poisson_nll, [T(pats), T(f32(n, a, b))], dict(mask=ctx.choice([None, T(mask)]), subtract_min=ctx.flip())),
        'colorize': (pl.colorize, [np.array(c64(a, b))], dict(use_cmocean=False)),
        'to_numpy': (dt.nested_dict_to_numpy, [dict(a=T(f32(3)), b=dict(c=f32(2), d='x', e=1))], {}),
        'to_torch': (dt.nested_dict_to_torch, [dict(a=T(f32(3)), b=dict(c=f32(2), d='x', e=1))], {}),
        'to_h5': (dt.nested_dict_to_h5, [os.path.join(ctx.dir, 'n.h5'), dict(a=T(f32(3)), b=dict(c=f32(2), d='x'))], {}),
        'plot_real': (pl.plot_real, [A(c64(*ctx.choice([(a, b), (n, a, b)])))], dict(basis=ctx.choice([None, A(basis)]))),
        'plot_imag': (pl.plot_imag, [A(c64(a, b))], {}),
        'plot_amplitude': (pl.plot_amplitude, [A(c64(n, a, b))], dict(basis=A(basis), units='nm')),
        'plot_phase': (pl.plot_phase, [A(c64(a, b))], {}),
        'plot_colorized': (pl.plot_colorized, [A(c64(k, a, b))], {}),
        'plot_translations': (pl.plot_translations, [A(tr3)], dict(invert_xaxis=ctx.flip())),
        'plot_nanomap': (pl.plot_nanomap, [A(tr3), A(f32(n))], dict(convention=ctx.choice(['probe', 'obj']))),
        'plot_nanomap_images': (pl.plot_nanomap_with_images, [A(tr3), lambda i: pats[i]], dict(values=A(f32(n)), basis=A(basis),
                                                                                               mask=ctx.choice([None, np.array(mask)]))),
    }
    res = lambda: dict(obj=c64(48, 50), probe=c64(2, 34, 36), weights=f32(n), translations=tr3 * 0.1, background=f32(34, 36),
                       obj_basis=basis, probe_basis=basis, wavelength=np.array(1e-9))
    spec['pair'] = (an.standardize_reconstruction_pair, [res(), res()],
                    dict(window=np.s_[6:42, 6:44], nbins=6, probe_nbins=6, correct_amplitude_exponent=ctx.flip(0.3), correct_phase_ramp=ctx.flip(),
                         correct_phase_offset=ctx.flip()))
    spec['set'] = (an.standardize_reconstruction_set, [res(), res(), res()],
                   dict(window=np.s_[6:42, 6:44], nbins=6, correct_amplitude_exponent=ctx.flip(0.3), correct_phase_ramp=ctx.flip(),
                         correct_phase_offset=ctx.flip()))
    return spec


def conv(x):
    if isinstance(x, dict):
        return {k: conv(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [conv(v) for v in x]
    if isinstance(x, t.Tensor):
        return (str(x.dtype), tonp(x).copy())
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.copy())
    if isinstance(x, (int, float, str, type(None), np.generic, slice)):
        return repr(x)
    return None


# the eigenvalue solver of scipy has its own source of random numbers
RANDOM = {'spectral_init'}


def purity(ctx):
    spec = table(ctx)
    names = list(spec)
    # a part of the functions each time
    slow = [k for k in names if k.startswith('plot') or k in ('pair', 'set', 'phase_ramp', 'amplitude_exponent')]
    for name in names:
        if name in slow and not ctx.flip(0.3) or not ctx.flip(0.5):
            continue
        f, a, kw = spec[name]
        before = conv([a, kw])
        ctx.param(function=name)
        outs = []
        try:
            for _ in range(2):
                # some of the functions start from random numbers
                t.manual_seed(3)
                np.random.seed(3)
                outs.append(conv(f(*a, **kw)))
                after = conv([a, kw])
                ctx.expect(not gen.same_snapshot(dict(x=before), dict(x=after)), f'input_changed:{name}',
                           lambda: f'arguments {[i for i, (p, q) in enumerate(zip(before[0], after[0])) if gen.same_snapshot(dict(x=p), dict(x=q))]}')
            if not name.startswith('plot') and name not in RANDOM:
                ctx.expect(not gen.same_snapshot(dict(x=outs[0]), dict(x=outs[1])), f'not_repeatable:{name}', '')
        finally:
            plt.close('all')
        ctx.note('tools')
        ctx.note('fn_' + name)
        ctx.sig('tool', name, ctx.index % 7)


WORKLOADS = {'model_reading': (model_reading, 220, 1500), 'watched': (watched, 110, 700), 'kept': (kept, 90, 1200),
             'dataset_reading': (dataset_reading, 120, 800), 'purity': (purity, 100, 800)}
