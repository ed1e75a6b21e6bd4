"""P02: files which follow the CXI conventions are interpreted as the conventions say."""
import numpy as np, h5py, torch as t
from vf import gen
from vf.core import tonp
from cdtools.datasets import Ptycho2DDataset, CDataset

RULE = ('.cxi files written directly with h5py (never with cdtools) with every optional convention '
        'on or off: energy or wavelength, basis vectors or pixel sizes, distance or corner, mask '
        'words, dark stacks, three locations of the positions, soft links, NaN and negative counts; '
        'distinct by the chosen conventions')
ASSUMPTIONS = ['one entry per file, as everywhere in cdtools',
               'photon energies convert with hc = 1.9864459e-25 J m']
# Cases of the quick tier, relative to the numbers below
QUICK = 3
REQUIRE = {'surface_normal_only': 30, 'imported': 150, 'energy_only': 20, 'one_element': 50, 'titles': 100, 'basis_from_pixels': 30, 'distance_from_corner': 20,
           'mask_words': 50, 'dark_stack': 30, 'negative': 20, 'nan': 20, 'big_endian': 100}
HC = 1.9864459e-25


def put(f, where, data, link=None, **kw):
    f.create_dataset(where, data=data, **kw)
    if link:
        f[link] = h5py.SoftLink('/' + where)


def foreign(ctx):
    rng = ctx.rng
    s = gen.make_spec(rng, min_side=3, max_side=12, basis_tilt=ctx.flip(0.3))
    path = ctx.dir + '/f.cxi'
    conv = {}
    f = h5py.File(path, 'w')
    f['cxi_version'] = 160
    f['number_of_entries'] = 1
    D, I = 'entry_1/instrument_1/detector_1', 'entry_1/instrument_1'
    f.create_group(D)
    # source
    lam = s.wavelength
    conv['source'] = ctx.choice(['wavelength', 'energy', 'both'])
    fl = ctx.choice([np.float32, np.float64])
    if conv['source'] != 'energy':
        f[I + '/source_1/wavelength'] = fl(lam)
    if conv['source'] != 'wavelength':
        f[I + '/source_1/energy'] = fl(HC / lam)
    if conv['source'] == 'energy':
        ctx.note('energy_only')
    # geometry
    conv['basis'] = ctx.choice(['3x2', '2x3', 'both_sizes', 'x_only', 'y_only', 'basis_and_sizes'])
    if conv['basis'] in ('3x2', '2x3', 'basis_and_sizes'):
        basis = s.basis
        f[D + '/basis_vectors'] = basis.T if conv['basis'] == '2x3' else basis
        if conv['basis'] == 'basis_and_sizes':       # the basis vectors are authoritative
            f[D + '/x_pixel_size'] = 1.23e-5
            f[D + '/y_pixel_size'] = 3.21e-5
    else:
        ctx.note('basis_from_pixels')
        px, py = s.p_col, s.p_row
        if conv['basis'] == 'x_only':
            py = px
        if conv['basis'] == 'y_only':
            px = py
        if conv['basis'] in ('both_sizes', 'x_only'):
            f[D + '/x_pixel_size'] = fl(px)
        if conv['basis'] in ('both_sizes', 'y_only'):
            f[D + '/y_pixel_size'] = fl(py)
        # rows run along -y, columns along -x, beam along +z
        basis = np.array([[0, -px], [-py, 0], [0, 0]])
    conv['dist'] = ctx.choice(['distance', 'corner', 'both'])
    nrm = np.cross(basis[:, 0], basis[:, 1])
    nrm = nrm / np.linalg.norm(nrm)
    corner = nrm * s.distance * ctx.choice([1, -1]) - basis @ (np.array(s.shape) / 2) \
        + basis @ rng.normal(size=2) * 5
    dist = s.distance
    if conv['dist'] != 'corner':
        f[D + '/distance'] = fl(dist * 1.5) if conv['dist'] == 'both' else fl(dist)
        if conv['dist'] == 'both':
            dist = dist * 1.5                         # an explicit distance is authoritative
    if conv['dist'] != 'distance':
        f[D + '/corner_position'] = corner
    if conv['dist'] == 'corner':
        ctx.note('distance_from_corner')
    # mask words
    mask = np.ones(s.shape, bool)
    conv['mask'] = ctx.flip(0.7)
    if conv['mask']:
        ctx.note('mask_words')
        bits = np.array([0, 0, 0, 0x1000, 0x1, 0x2, 0x4, 0x8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200,
                         0x400, 0x800, 0x1001, 0x1200, 0x8000])
        words = bits[rng.integers(0, len(bits), s.shape)]
        dt = ctx.choice([np.uint32, np.int32, np.int64, np.uint16])
        f[D + '/mask'] = words.astype(dt)
        mask = (words == 0) | (words == 0x1000)
    # quantum efficiency
    qe = None
    if ctx.flip(0.4):
        qe = rng.uniform(0.2, 1, s.shape)
        f[D + '/qe_mask'] = qe
    # dark images
    dark = None
    conv['dark'] = ctx.choice(['none', '2d', 'stack', 'stack4', 'stack_nan'])
    if conv['dark'] != 'none':
        lead = {'2d': (), 'stack': (3,), 'stack4': (2, 3), 'stack_nan': (4,)}[conv['dark']]
        darks = rng.uniform(0, 4, lead + s.shape).astype(fl)
        if conv['dark'] == 'stack_nan':
            bad = rng.random(darks.shape) < 0.2
            bad[0] = False
            darks[bad] = np.nan
        f[D + '/data_dark'] = darks
        fin = np.isfinite(darks)
        dark = np.where(fin, darks, 0).astype(float)
        if lead:
            ax = tuple(range(len(lead)))
            dark = dark.sum(axis=ax) / fin.sum(axis=ax)
            ctx.note('dark_stack')
    # patterns
    dt = ctx.choice(['float32', 'float64', 'int32', 'int16', 'uint8', 'uint16', 'uint32', 'int8'])
    pats = np.minimum(s.patterns, 100).astype(dt)
    conv['cut'] = ctx.flip(0.7)
    if not dt.startswith('uint') and ctx.flip():
        ctx.note('negative')
        pats = pats - np.asarray(4, dt)
        pats[rng.random(pats.shape) < 0.1] = -3
    nan = np.zeros(pats.shape, bool)
    if dt.startswith('float') and ctx.flip(0.4):
        ctx.note('nan')
        nan = rng.random(pats.shape) < 0.03
        nan[0, 0, 0] = True
    stored = pats.copy()
    stored[nan] = np.nan if nan.any() else 0
    conv['data_at'] = ctx.choice(['data_1', 'detector_1', 'linked', 'both'])
    kw = ctx.choice([{}, dict(compression='gzip', chunks=True)])
    if conv['data_at'] == 'data_1':
        put(f, 'entry_1/data_1/data', stored, **kw)
    elif conv['data_at'] == 'detector_1':
        put(f, D + '/data', stored, **kw)
    elif conv['data_at'] == 'linked':
        put(f, D + '/data', stored, link='entry_1/data_1/data', **kw)
    else:                                             # data_1 is what an entry's plot is made of
        put(f, 'entry_1/data_1/data', stored, **kw)
        put(f, D + '/data', stored * 0 + 1, **kw)
    axes = None
    if ctx.flip(0.7):
        axes = ctx.choice(['translation:y:x', ' Translation : Y : X', 'A:b:C '])
        w = 'entry_1/data_1/data' if conv['data_at'] in ('data_1', 'both') else D + '/data'
        f[w].attrs['axes'] = axes if ctx.flip() else np.bytes_(axes)
        axes = [a.strip().lower() for a in axes.split(':')]
    # positions: those of the sample are stored, those of the probe are wanted
    conv['pos_at'] = ctx.choice(['data_1', 'geometry_1', 'detector_1', 'linked'])
    pos = -np.asarray(s.translations)
    pos[:, 2] = rng.normal(size=s.n) * 1e-6
    pos = pos.astype(fl)
    G = 'entry_1/sample_1/geometry_1'
    if conv['pos_at'] == 'linked':
        put(f, G + '/translation', pos, link='entry_1/data_1/translation')
    else:
        put(f, {'data_1': 'entry_1/data_1', 'geometry_1': G, 'detector_1': D}[conv['pos_at']]
            + '/translation', pos)
    inten = None
    if ctx.flip(0.4) and conv['pos_at'] != 'x':
        inten = rng.uniform(0.5, 2, s.n)
        where = ctx.choice(['entry_1/data_1', G, D])
        f[where + '/intensities'] = inten
    # sample
    normal = None
    conv['orient'] = ctx.choice(['none', 'orientation', 'surface_normal'])
    if conv['orient'] != 'none':
        normal = gen.rot(rng.normal(size=3), ctx.uniform(0, 0.5)) @ np.array([0, 0, 1.])
        if conv['orient'] == 'surface_normal':
            f[G + '/surface_normal'] = normal * ctx.choice([1.0, 1.0, 2.5])
        else:
            x = gen.rot(normal, ctx.uniform(0, 6)) @ gen.unit(np.cross([0, 1., 0], normal))
            y = np.cross(normal, x)
            sc = ctx.choice([1.0, 2.5])               # directions, their length does not matter
            f[G + '/orientation'] = np.concatenate([x * sc, y * sc])
    if ctx.flip():
        f['entry_1/sample_1/name'] = np.bytes_('quartz')
    title = ctx.choice([None, None, 'zebra plot', 'Überprobe µm', '1705312345678', '20240115123456789012'])
    if title is not None:
        # the numbers are no dates
        k0 = ctx.choice(['title', 'experiment_identifier'])
        f['entry_1/' + k0] = np.bytes_(title.encode()) if ctx.flip() else title
    f.close()

    if ctx.flip(0.3):
        # some programs write scalars as arrays of one element
        conv['one_element'] = True
        with h5py.File(path, 'r+') as g:
            sets = []
            g.visititems(lambda k, v: sets.append(k) if isinstance(v, h5py.Dataset) and v.shape == () else None)
            for k in sets:
                if ctx.flip(0.7):
                    a = g[k][()]
                    del g[k]
                    g.create_dataset(k, data=[a]) if isinstance(a, bytes) else g.create_dataset(k, data=np.array([a]))
        ctx.note('one_element')

    if ctx.flip(0.4):
        # written on another machine
        conv['big_endian'] = True
        with h5py.File(path, 'r+') as g:
            sets = []
            g.visititems(lambda k, v: sets.append(k) if isinstance(v, h5py.Dataset) and v.dtype.kind in 'iuf' else None)
            for k in sets:
                if ctx.flip(0.7):
                    a, at = g[k][()], dict(g[k].attrs)
                    del g[k]
                    g[k] = np.asarray(a).astype(np.asarray(a).dtype.newbyteorder('>'))
                    g[k].attrs.update(at)
        ctx.note('big_endian')
    ctx.param(**conv)
    ctx.sig(*[str(v) for v in conv.values()])
    ctx.sample(**conv, shape=s.shape, dtype=dt)
    d = Ptycho2DDataset.from_cxi(path, cut_zeros=conv['cut'])
    ctx.note('imported')
    ctx.close(d.wavelength, lam, 'wavelength', rtol=3e-6, msg=conv['source'])
    ctx.close(d.detector_geometry['basis'], basis, 'basis', rtol=3e-6, msg=conv['basis'])
    ctx.close(d.detector_geometry['distance'], dist, 'distance', rtol=1e-5, msg=conv['dist'])
    if conv['dist'] == 'distance':
        ctx.expect(d.detector_geometry['corner'] is None, 'corner', 'a corner appeared')
    else:
        ctx.close(d.detector_geometry['corner'], corner, 'corner', rtol=3e-6)
    ctx.equal(d.translations, -pos.astype(np.float32), 'probe_positions', conv['pos_at'])
    want = np.where(nan, 0, np.maximum(pats, 0) if conv['cut'] else pats)
    ctx.equal(d.patterns, want.astype('float32') if dt == 'float64' else want, 'patterns',
              f'{dt} cut_zeros={conv["cut"]}')
    ctx.equal(d.mask, mask & ~nan.any(axis=0), 'mask')
    ctx.expect(d.mask.dtype == t.bool, 'mask', 'type')
    if dark is None:
        ctx.expect(d.background is None, 'dark', 'a background appeared')
    else:
        ctx.close(d.background, dark, 'dark', rtol=3e-6, msg=conv['dark'])
    if qe is None:
        ctx.expect(d.qe_mask is None, 'qe_mask', 'a qe mask appeared')
    else:
        ctx.close(d.qe_mask, qe, 'qe_mask', rtol=1e-6)
    if inten is None:
        ctx.expect(d.intensities is None, 'intensities', 'intensities appeared')
    else:
        ctx.close(d.intensities, inten, 'intensities', rtol=1e-6)
    if axes is None:
        ctx.expect(d.axes is None, 'axes', f'{d.axes}')
    else:
        ctx.expect(list(d.axes) == axes, 'axes', f'{d.axes} != {axes}')
    if normal is None:
        ctx.expect(not d.sample_info or 'orientation' not in d.sample_info, 'orientation')
    else:
        o = tonp(d.sample_info['orientation'])
        ctx.close(o[2], normal, 'surface_normal', rtol=1e-5)
        ctx.close(o @ o.T, np.eye(3), 'orientation', rtol=1e-5)
        ctx.expect(np.linalg.det(o) > 0, 'orientation', 'left-handed')
        if conv['orient'] == 'surface_normal':
            # a tilted sample is not turned around as well
            ctx.expect(o[0][0] > 0 and o[1][1] > 0, 'orientation_turned', lambda: f'{o}')
            ctx.note('surface_normal_only')
        if conv['orient'] == 'orientation':
            ctx.close(o[0], x, 'orientation', rtol=1e-5)
            ctx.close(o[1], y, 'orientation', rtol=1e-5)
    for k, v in (('wavelength', d.wavelength), ('distance', d.detector_geometry['distance'])):
        ctx.expect(np.ndim(tonp(v)) == 0, 'scalar', lambda: f'{k}: {v!r}')
    if title is not None:
        ctx.expect(d.entry_info and d.entry_info.get(k0) == title, 'title', lambda: f'{d.entry_info}')
        ctx.note('titles')
    b = CDataset.from_cxi(path)
    ctx.close(b.wavelength, lam, 'wavelength', rtol=3e-6)
    ctx.close(b.detector_geometry['basis'], basis, 'basis', rtol=3e-6)
    if conv['mask']:
        ctx.equal(b.mask, mask, 'mask')
    else:
        ctx.expect(b.mask is None, 'mask')


def broken(ctx):
    """Files which lack what is needed are refused, rather than filled in"""
    rng = ctx.rng
    s = gen.make_spec(rng, n=3, shape=(4, 5))
    miss = ctx.choice(['source', 'pixels', 'distance', 'translation', 'data'])
    path = ctx.dir + '/f.cxi'
    D = 'entry_1/instrument_1/detector_1'
    with h5py.File(path, 'w') as f:
        f.create_group(D)
        f.create_group('entry_1/instrument_1/source_1')
        if miss != 'source':
            f['entry_1/instrument_1/source_1/wavelength'] = s.wavelength
        if miss != 'pixels':
            f[D + '/x_pixel_size'] = s.p_col
            f[D + '/y_pixel_size'] = s.p_row
        if miss != 'distance':
            f[D + '/distance'] = s.distance
        if miss != 'translation':
            f['entry_1/data_1/translation'] = s.translations
        if miss != 'data':
            f['entry_1/data_1/data'] = s.patterns
    ctx.sig(miss)
    try:
        Ptycho2DDataset.from_cxi(path)
        ok = False
    except KeyError:
        ok = True
    ctx.expect(ok, 'missing_information_refused', f'a file without {miss} was accepted')


WORKLOADS = {'foreign': (foreign, 400, 6000), 'broken': (broken, 20, 60)}
