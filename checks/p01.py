"""P01: a saved dataset reads back as the same dataset."""
import datetime, pathlib
import numpy as np, h5py, torch as t
from vf import gen
from vf.core import tonp
from cdtools.datasets import CDataset, Ptycho2DDataset
from cdtools.tools import data as cdtdata

RULE = ('random datasets (all optional fields on or off, six pattern types, three ways to name the '
        'file, NaN pixels, 2x3/3x2 bases, slices of edited datasets) written with to_cxi and read '
        'with from_cxi, twice; distinct by the set of present fields, the pattern type and the '
        'file access; every case compares all fields and is non-trivial')
ASSUMPTIONS = ['entry_info strings which dateutil parses as dates are documented to come back as '
               'datetimes, so the generator uses words which do not parse as dates',
               'counts of unsigned 16/32/64 bit type become the next larger signed type']
# Cases of the quick tier, relative to the numbers below
QUICK = 3
REQUIRE = {'round_trip': 100, 'second_trip': 40, 'base_round_trip': 30, 'nan_pixels': 5,
           'negative_counts': 5, 'written': 100}

WORDS = ['quartz', 'zebra plot', 'Ptychography of a Siemens star', 'blorb', 'vortex', 'xylem', 'α-quartz, 3 Å', 'Überprobe µm', '1705312345678', '20240115123456789012']
DTYPES = ['float32', 'float32', 'float64', 'int32', 'int16', 'uint8', 'int64', 'int8', 'uint16', 'uint32', 'uint64']


def info(ctx):
    e = {}
    for k in ('title', 'experiment_identifier', 'experiment_description', 'program_name'):
        if ctx.flip():
            e[k] = ctx.choice(WORDS)
    for k in ('start_time', 'end_time'):
        if ctx.flip():
            e[k] = datetime.datetime(ctx.integer(1990, 2040), ctx.integer(1, 12), ctx.integer(1, 28),
                                     ctx.integer(0, 23), ctx.integer(0, 59), ctx.integer(0, 59),
                                     ctx.integer(0, 999999),
                                     ctx.choice([None, None, datetime.timezone.utc,
                                                 datetime.timezone(datetime.timedelta(hours=-7))]))
    if ctx.flip(0.3):
        e['polarization_states'] = ctx.choice([np.asarray, t.as_tensor, lambda a: a.tolist()])(ctx.rng.normal(size=(3, 4)))
    s = {}
    for k in ('name', 'description', 'unit_cell_group'):
        if ctx.flip():
            s[k] = ctx.choice(WORDS)
    for k in ('concentration', 'mass', 'temperature', 'thickness', 'unit_cell_volume'):
        if ctx.flip(0.4):
            s[k] = ctx.choice([float, np.float32, t.tensor, int])(float(np.float32(ctx.uniform(1, 300))) *
                                                                 (1 if ctx.flip() else 2. ** 20))
    if ctx.flip(0.4):
        s['unit_cell'] = ctx.choice([np.asarray, t.as_tensor, lambda a: a.tolist()])(ctx.rng.uniform(1, 90, 6).astype(np.float32))
    if ctx.flip():
        n = gen.rot(ctx.rng.normal(size=3), ctx.uniform(0, 0.6)) @ np.array([0, 0, 1.])
        r = gen.rot(n, ctx.uniform(0, 6))
        x = r @ gen.unit(np.cross([0, 1., 0], n))
        s['orientation'] = np.array([x, np.cross(n, x), n])
    return (e if ctx.flip(0.8) else None), (s if s and ctx.flip(0.8) else None)


def same_info(ctx, got, want, what, mech):
    want = want or {}
    got = got or {}
    if not ctx.expect(set(got) == set(want), mech, f'{what}: {sorted(got)} != {sorted(want)}'):
        return
    for k, w in want.items():
        g = got[k]
        if isinstance(w, (str, datetime.datetime)):
            ctx.expect(type(g) is type(w) and g == w, mech, f'{what}[{k}]: {g!r} != {w!r}')
        else:
            ctx.close(g, tonp(w) if isinstance(w, t.Tensor) else np.asarray(w), mech, rtol=2e-6, msg=f'{what}[{k}]')


def save_load(ctx, d, cls, tag, **kw):
    """-> loaded, through a random one of the three kinds of file argument"""
    path = f'{ctx.dir}/{tag}.cxi'
    how = ctx.choice(['str', 'path', 'open'])
    if how == 'open':
        with cdtdata.create_cxi(path) as f:
            d.to_cxi(f)
    else:
        d.to_cxi(path if how == 'str' else pathlib.Path(path))
    how2 = ctx.choice(['str', 'path', 'open'])
    if how2 == 'open':
        with h5py.File(path, 'r') as f:
            return cls.from_cxi(f, **kw), how + how2
    return cls.from_cxi(path if how2 == 'str' else pathlib.Path(path), **kw), how + how2


def compare_base(ctx, e, s, spec, L, entry, sample):
    ctx.close(L.wavelength, spec.wavelength, 'wavelength', rtol=2e-6)
    ctx.close(L.detector_geometry['distance'], spec.distance, 'distance', rtol=2e-6)
    ctx.close(L.detector_geometry['basis'], spec.basis, 'basis', rtol=2e-6)
    if spec.corner is None:
        ctx.expect(L.detector_geometry.get('corner') is None, 'corner', 'a corner appeared')
    else:
        ctx.close(L.detector_geometry['corner'], spec.corner, 'corner', rtol=2e-6)
    same_info(ctx, L.entry_info, entry, 'entry_info', 'entry_info')
    same_info(ctx, L.sample_info, sample, 'sample_info', 'sample_info')
    for k in ('qe_mask', 'background'):
        w = getattr(spec, k)
        g = getattr(L, k)
        if w is None:
            ctx.expect(g is None, k, f'{k} appeared')
        else:
            ctx.equal(g, w, k)
            ctx.expect(g.dtype == t.float32, k, f'{k} has type {g.dtype}')


def ptycho(ctx):
    rng = ctx.rng
    s = gen.make_spec(rng, z=ctx.flip(), basis_tilt=ctx.flip(0.4), min_side=3, max_side=14)
    if ctx.flip(0.15):
        s.n = 1
        s.patterns, s.translations = s.patterns[:1], s.translations[:1]
    gen.decorate(rng, s)
    s.sample_info = None
    entry, sample = info(ctx)
    s.entry_info, s.sample_info = entry, sample
    if ctx.flip():
        s.corner = rng.normal(size=3) * 0.1
    dt = ctx.choice(DTYPES)
    cut = True
    s.patterns = np.minimum(s.patterns, 120 if dt.endswith('int8') else 30000).astype(dt)
    if dt.startswith('float'):
        s.patterns = s.patterns + rng.uniform(0, 1, s.patterns.shape).astype(dt)
    if not dt.startswith('uint') and ctx.flip(0.25):
        cut = False
        s.patterns = s.patterns - np.asarray(3, dtype=dt)
        s.patterns[0].flat[0] = -2
        ctx.note('negative_counts')
    nan = None
    src = s.patterns.copy()
    if dt.startswith('float') and ctx.flip(0.3):
        nan = rng.random(s.patterns.shape) < 0.02
        nan[rng.integers(s.n), rng.integers(s.shape[0]), rng.integers(s.shape[1])] = True
        s.patterns[nan] = np.nan
        src = s.patterns.copy()
        ctx.note('nan_pixels')
    s.axes = ctx.choice([['x', 'y', 'z'], ['θ', 'y', 'x'], ['translation', 'y', 'x'], ['a', 'bb', 'c']])
    d = gen.build(s)
    if d.patterns.is_floating_point() and dt == 'float64':
        pass
    snap = gen.snapshot_dataset(d)
    fields = [k for k in ('mask', 'background', 'qe_mask', 'intensities', 'entry_info',
                          'sample_info', 'corner') if getattr(s, k) is not None]
    L, how = save_load(ctx, d, Ptycho2DDataset, 'a', cut_zeros=cut)
    ctx.param(fields=fields, dtype=dt, how=how, cut_zeros=cut, shape=list(s.shape), n=s.n)
    ctx.sig('+'.join(fields), dt, how, nan is not None, cut)
    ctx.sample(fields=fields, dtype=dt, file_access=how, shape=s.shape, n=s.n, nan=nan is not None)
    ctx.note('round_trip')
    ctx.expect(not gen.same_snapshot(snap, gen.snapshot_dataset(d)), 'saving_changes_nothing',
               'saving changed the dataset')
    ctx.expect(type(L) is Ptycho2DDataset, 'type')
    compare_base(ctx, None, None, s, L, entry, sample)
    ctx.equal(L.translations, np.asarray(s.translations, dtype=np.float32), 'translations')
    want = np.where(np.isnan(src), 0, src) if nan is not None else src
    if dt == 'float64':
        want = want.astype(np.float32)
    if dt in ('uint16', 'uint32', 'uint64'):
        want = want.astype({'uint16': np.int32}.get(dt, np.int64))
    ctx.equal(L.patterns, want, 'patterns')
    ctx.expect(str(tonp(L.patterns).dtype) == str(want.dtype), 'pattern_type',
               f'{tonp(L.patterns).dtype} instead of {want.dtype}')
    m = np.ones(s.shape, bool) if s.mask is None else s.mask.copy()
    if nan is not None:
        m &= ~nan.any(axis=0)
    ctx.equal(L.mask, m, 'mask')
    ctx.expect(L.mask.dtype == t.bool, 'mask', 'mask type')
    ctx.expect(len(L) == s.n, 'length')
    ctx.expect([a.lower() for a in s.axes] == list(L.axes), 'axes', f'{L.axes}')
    if s.intensities is None:
        ctx.expect(L.intensities is None, 'intensities', 'intensities appeared')
    else:
        ctx.equal(L.intensities, s.intensities, 'intensities')
    # what the loaded dataset hands to a reconstruction
    for i in {0, s.n - 1, ctx.integer(0, s.n - 1)}:
        (idx, tr), pat = L[i]
        ctx.expect(idx == i, 'items')
        ctx.equal(tr, np.asarray(s.translations[i], dtype=np.float32), 'items')
        ctx.equal(pat, want[i], 'items')
    # The second trip is the identity
    snap = gen.snapshot_dataset(L)
    L2, how = save_load(ctx, L, Ptycho2DDataset, 'b', cut_zeros=cut)
    ctx.note('second_trip')
    diff = gen.same_snapshot(snap, gen.snapshot_dataset(L2))
    diff = [k for k in diff if k != 'sample_info']
    ctx.expect(not diff, 'second_trip', f'changed: {diff}')
    same_info(ctx, L2.sample_info, L.sample_info, 'sample_info', 'second_trip')
    # Without the patterns, everything else is the same
    if ctx.flip(0.3):
        L3 = Ptycho2DDataset.from_cxi(f'{ctx.dir}/b.cxi', load_patterns=False)
        a, b = gen.snapshot_dataset(L2), gen.snapshot_dataset(L3)
        diff = [k for k in gen.same_snapshot(a, b) if k not in ('patterns', 'axes', 'mask')]
        ctx.expect(not diff, 'load_patterns_false', f'changed: {diff}')


def base(ctx):
    rng = ctx.rng
    s = gen.make_spec(rng, basis_tilt=ctx.flip(0.4), min_side=3, max_side=14, n=1)
    gen.decorate(rng, s)
    entry, sample = info(ctx)
    if ctx.flip():
        s.corner = rng.normal(size=3) * 0.1
    basis = t.as_tensor(s.basis, dtype=t.float32)
    if ctx.flip():
        basis = basis.numpy().copy()
    geo = {'distance': s.distance, 'basis': basis}
    if s.corner is not None:
        geo['corner'] = s.corner.astype(np.float32)
    elif ctx.flip():
        geo['corner'] = None
    d = CDataset(entry_info=entry, sample_info=sample, wavelength=s.wavelength,
                 detector_geometry=geo, mask=s.mask, qe_mask=s.qe_mask, background=s.background)
    L, how = save_load(ctx, d, CDataset, 'a')
    ctx.note('base_round_trip')
    ctx.sig(how, *[k for k in ('mask', 'background', 'qe_mask', 'corner') if getattr(s, k) is not None])
    compare_base(ctx, None, None, s, L, entry, sample)
    if s.mask is None:
        ctx.expect(L.mask is None, 'mask', 'a mask appeared')
    else:
        ctx.equal(L.mask, s.mask, 'mask')


def edited(ctx):
    """Datasets which were cropped, split, padded or downsampled before they are saved"""
    rng = ctx.rng
    s, d = gen.small_dataset(rng, n=ctx.integer(6, 14), mask=None, background=None, qe_mask=None,
                             intensities=None)
    ops = []
    for _ in range(ctx.integer(1, 3)):
        op = ctx.choice(['crop', 'remove', 'split', 'pad', 'down'])
        if op == 'split':
            h = d.split()[ctx.integer(0, 1)]
            if len(h) < 2:
                continue
            d = h
        elif op == 'remove' and len(d) > 3:
            d.remove_translations_mask(t.as_tensor(np.arange(len(d)) % 3 == 1))
        elif op == 'crop':
            tr = tonp(d.translations)
            d.crop_translations([tr[:, 0].min() * 0.9, tr[:, 0].max(), tr[:, 1].min(), tr[:, 1].max()])
        elif op == 'pad':
            d.pad(ctx.choice([1, (1, 2), (0, 1, 2, 3)]), mask=ctx.flip())
        elif op == 'down':
            d.downsample(2)
        ops.append(op)
    ctx.sig('+'.join(ops))
    snap = gen.snapshot_dataset(d)
    L, how = save_load(ctx, d, Ptycho2DDataset, 'a')
    ctx.note('round_trip')
    b = gen.snapshot_dataset(L)
    for k in ('mask', 'qe_mask', 'background', 'translations', 'patterns', 'intensities', 'axes'):
        ctx.expect(not gen.same_snapshot({k: snap[k]}, {k: b[k]}), 'edited:' + k, f'after {ops}')
    ctx.close(L.detector_geometry['basis'], d.detector_geometry['basis'], 'edited:basis', rtol=1e-6)


def writers(ctx):
    """Files which are written piece by piece with the tools for it"""
    rng = ctx.rng
    s = gen.make_spec(rng, z=ctx.flip(), basis_tilt=ctx.flip(0.4), min_side=3, max_side=9)
    gen.decorate(rng, s)
    entry, sample = info(ctx)
    s.corner = rng.normal(size=3) * 0.1 if ctx.flip() else None
    conv = lambda a: ctx.choice([np.asarray, t.as_tensor])(np.array(a))
    pieces = {'data': lambda f: cdtdata.add_data(f, conv(s.patterns), axes=ctx.choice([axes, ':'.join(axes)]),
                                                 **ctx.choice([{}, dict(compression=None, chunks=None), dict(compression='lzf')])),
              'source': lambda f: cdtdata.add_source(f, s.wavelength),
              'detector': lambda f: cdtdata.add_detector(f, s.distance, conv(np.asarray(s.basis, dtype=np.float32).T if turned else
                                                                             np.asarray(s.basis, dtype=np.float32)),
                                                         **({} if s.corner is None else dict(corner=conv(s.corner)))),
              'positions': lambda f: cdtdata.add_ptycho_translations(f, conv(s.translations))}
    axes, turned = ['translation', 'y', 'x'], ctx.flip()
    if entry is not None:
        pieces['entry'] = lambda f: cdtdata.add_entry_info(f, entry)
    if sample is not None:
        pieces['sample'] = lambda f: cdtdata.add_sample_info(f, sample)
    if s.mask is not None:
        pieces['mask'] = lambda f: cdtdata.add_mask(f, conv(s.mask))
    if s.qe_mask is not None:
        pieces['qe'] = lambda f: cdtdata.add_qe_mask(f, conv(s.qe_mask))
    if s.background is not None:
        k = ctx.integer(0, 2)
        dark = s.background if k == 0 else s.background + np.zeros((k, 1, 1), np.float32)
        pieces['dark'] = lambda f: cdtdata.add_dark(f, conv(dark))
    if s.intensities is not None:
        pieces['intensities'] = lambda f: cdtdata.add_shot_to_shot_info(f, conv(s.intensities), 'intensities')
    order = [list(pieces)[k] for k in rng.permutation(len(pieces))]
    ctx.param(order=order)
    path = f'{ctx.dir}/w.cxi'
    with cdtdata.create_cxi(path) as f:
        for k in order:
            pieces[k](f)
    L = Ptycho2DDataset.from_cxi(path)
    compare_base(ctx, None, None, s, L, entry, sample)
    ctx.equal(L.patterns, s.patterns, 'written_patterns')
    ctx.equal(L.translations, np.asarray(s.translations, dtype=np.float32), 'written_translations')
    ctx.equal(L.mask, np.ones(s.shape, bool) if s.mask is None else s.mask, 'written_mask')
    if s.intensities is None:
        ctx.expect(L.intensities is None, 'written_intensities', 'intensities appeared')
    else:
        ctx.equal(L.intensities, s.intensities, 'written_intensities')
    ctx.expect(list(L.axes) == axes, 'written_axes', f'{L.axes}')
    ctx.note('written')
    ctx.sig('written', tuple(order))


WORKLOADS = {'writers': (writers, 80, 1500), 'ptycho': (ptycho, 240, 4000), 'base': (base, 80, 1000), 'edited': (edited, 80, 1500)}
