"""P03: editing a dataset never separates a pattern from its position and intensity."""
import copy, pickle
import numpy as np, torch as t
from vf import gen
from vf.core import tonp
from cdtools.datasets import Ptycho2DDataset

RULE = ('random sequences of up to 8 edits (crop to a region, remove by mask, split and continue '
        'with either half, pad, downsample, convert, copy, save and load) applied to the dataset and to a reference '
        'list of (id, position, intensity, pattern) records; the two are compared after every edit; '
        'distinct by the sequence of edits and the surviving ids')
ASSUMPTIONS = ['patterns are floats, as downsampling needs', 'regions are inclusive of their edges']
# Cases of the quick tier, relative to the numbers below
QUICK = 3
REQUIRE = {'long_edits': 40, 'long_scans': 10, 'edits': 400, 'op:crop': 30, 'op:remove': 30, 'op:split': 30, 'op:pad': 30, 'op:down': 30,
           'op:roundtrip': 15, 'op:convert': 15, 'access:loader': 40, 'access:mask': 40, 'access:list': 40, 'empty_region_refused': 10, 'halves_compared': 60,
           'items_compared': 500}


class Rec:
    def __init__(self, ident, pos, inten, pat):
        self.id, self.pos, self.inten, self.pat = ident, pos, inten, pat


def compare(ctx, d, recs, mask, why):
    n = len(recs)
    if not ctx.expect(len(d) == n, 'length', f'{why}: {len(d)} instead of {n} patterns'):
        return
    ctx.equal(d.translations, np.array([r.pos for r in recs]), 'positions', why)
    ctx.close(d.patterns, np.array([r.pat for r in recs]), 'patterns', rtol=1e-6, msg=why)
    if recs[0].inten is None:
        ctx.expect(getattr(d, 'intensities', None) is None, 'intensities', why)
    else:
        ctx.equal(d.intensities, np.array([r.inten for r in recs]), 'intensities', why)
    ctx.expect(tuple(d.mask.shape) == recs[0].pat.shape and d.mask.dtype == t.bool, 'mask', why)
    for i in {0, n - 1, ctx.integer(0, n - 1)}:
        (idx, tr), pat = d[i]
        ctx.note('items_compared')
        ctx.expect(int(idx) == i, 'items', f'{why}: index {idx} for item {i}')
        ctx.equal(tr, recs[i].pos, 'items', why)
        ctx.close(pat, recs[i].pat, 'items', rtol=1e-6, msg=why)
    # any way to select exposures gives their numbers, positions and patterns together
    form = ctx.choice(['slice', 'step', 'list', 'tensor', 'mask', 'negative', 'array', 'loader'])
    if form == 'slice':
        a = ctx.integer(0, n - 1)
        sel = slice(a, ctx.integer(a + 1, n))
    elif form == 'step':
        sel = slice(None, None, ctx.integer(1, 3))
    elif form == 'negative':
        sel = -ctx.integer(1, n)
    elif form == 'mask':
        sel = t.as_tensor(ctx.rng.random(n) < 0.5)
    elif form == 'loader':
        sel = None
    else:
        sel = [int(x) for x in ctx.rng.integers(0, n, ctx.integer(1, 6))]
        sel = dict(list=list, tensor=t.as_tensor, array=np.array)[form](sel)
    if form == 'loader':
        got = []
        for (ii, tt), pp in t.utils.data.DataLoader(d, batch_size=ctx.integer(1, 5), shuffle=ctx.flip()):
            got += list(zip(tonp(ii), tonp(tt), tonp(pp)))
        ctx.expect(sorted(int(g[0]) for g in got) == list(range(n)), 'loaded_once', f'{why}: {[int(g[0]) for g in got]}')
        for i, tr, pat in got[:6]:
            ctx.equal(tr, recs[int(i)].pos, 'loaded_items', why)
            ctx.close(pat, recs[int(i)].pat, 'loaded_items', rtol=1e-6, msg=why)
    else:
        (idx, tr), pat = d[sel]
        ns = tonp(sel) if isinstance(sel, t.Tensor) else sel
        P, Q = np.array([r.pos for r in recs])[ns], np.array([r.pat for r in recs])[ns]
        ctx.equal(tr, P, 'selected_positions', f'{why}: {form}')
        ctx.close(pat, Q, 'selected_patterns', rtol=1e-6, msg=f'{why}: {form}')
        ctx.expect(np.array_equal(tonp(np.arange(n)[ns]), tonp(np.arange(n)[tonp(idx) if isinstance(idx, t.Tensor) else idx])),
                   'selected_numbers', f'{why}: {idx}')
    ctx.note('access:' + form)


def down(recs, mask, f, qe):
    H, W = (x // f for x in recs[0].pat.shape)
    def blk(a):
        return a[:H * f, :W * f].reshape(H, f, W, f)
    recs = [Rec(r.id, r.pos, r.inten, blk(r.pat * mask).sum((1, 3))) for r in recs]
    return recs, blk(mask).any((1, 3)) if qe else blk(mask).all((1, 3))


def histories(ctx):
    rng = ctx.rng
    n = ctx.integer(4, 40)
    s = gen.make_spec(rng, n=n, min_side=6, max_side=14, extent=ctx.uniform(3, 20), z=ctx.flip())
    gen.decorate(rng, s, orientation=False)
    if ctx.flip(0.3):                     # repeated positions, as in repeated scans
        s.translations[n // 2:] = s.translations[:n - n // 2]
    for k in range(n):                    # make each pattern recognizable
        s.patterns[k] += 1000 * (k + 1)
    d = gen.build(s)
    tr = np.asarray(s.translations, np.float32)
    mask = np.ones(s.shape, bool) if s.mask is None else s.mask
    recs = [Rec(k, tr[k], None if s.intensities is None else s.intensities[k], s.patterns[k].astype(float))
            for k in range(n)]
    compare(ctx, d, recs, mask, 'fresh')
    ops = []
    for step in range(ctx.integer(1, 8)):
        op = ctx.choice(['crop', 'crop', 'remove', 'remove', 'split', 'split', 'pad', 'down',
                         'roundtrip', 'convert'])
        why = '>'.join(ops + [op])
        if op == 'crop':
            P = np.array([r.pos for r in recs], np.float64)
            kind = ctx.choice(['box', 'box', 'exact', 'empty'])
            lo, hi = P.min(0)[:2], P.max(0)[:2]
            if kind == 'empty':
                roi = [hi[0] + 1, hi[0] + 2, lo[1], hi[1]]
                try:
                    d.crop_translations(roi)
                    ctx.expect(False, 'empty_region', 'an empty region was accepted')
                except ValueError:
                    ctx.note('empty_region_refused')
                    ctx.expect(True, 'empty_region')
                compare(ctx, d, recs, mask, why + '(refused)')
                continue
            a = rng.uniform(0, 0.4, 2)
            b = rng.uniform(0.6, 1, 2)
            x = lo + a * (hi - lo)
            y = lo + b * (hi - lo)
            if kind == 'exact':           # edges on actual positions
                i, j = rng.integers(len(recs), size=2)
                x, y = np.minimum(P[i, :2], P[j, :2]), np.maximum(P[i, :2], P[j, :2])
            roi = [x[0], y[0], x[1], y[1]]
            if ctx.flip():
                roi[:2] = roi[1::-1]
            if ctx.flip():
                roi[2:] = roi[:1:-1]
            X0, X1 = sorted(np.float32(v) for v in roi[:2])
            Y0, Y1 = sorted(np.float32(v) for v in roi[2:])
            # which precision decides is not part of the property: avoid edges within rounding
            if kind != 'exact':
                m = min(np.min(np.abs(P[:, 0, None] - np.array([X0, X1])[None])),
                        np.min(np.abs(P[:, 1, None] - np.array([Y0, Y1])[None])))
                if m < 1e-5 * np.abs(P).max():
                    continue
            if kind == 'exact':
                roi = [float(v) for v in roi]
            keep = [r for r in recs if X0 <= r.pos[0] <= X1 and Y0 <= r.pos[1] <= Y1]
            if not keep:
                continue
            d.crop_translations(roi)
            recs = keep
        elif op == 'remove':
            rm = rng.random(len(recs)) < ctx.choice([0.1, 0.5, 0.8])
            if rm.all():
                rm[rng.integers(len(recs))] = False
            d.remove_translations_mask(t.as_tensor(rm))
            recs = [r for r, x in zip(recs, rm) if not x]
        elif op == 'split':
            before = gen.snapshot_dataset(d)
            h1, h2 = d.split()
            ctx.expect(not gen.same_snapshot(before, gen.snapshot_dataset(d)), 'split_keeps_source',
                       'splitting changed the dataset')
            ids = []
            halves = []
            pool = list(recs)            # records may be alike
            for h in (h1, h2):
                # which pattern went where is free, that nothing is lost or doubled is not
                hp, ht = tonp(h.patterns), tonp(h.translations)
                hi = None if recs[0].inten is None else tonp(h.intensities)
                ctx.require(len(hp) == len(ht) and (hi is None or len(hi) == len(ht)), 'length', why)
                got, k = [], 0
                for i in range(len(h)):
                    m = [r for r in pool if np.allclose(r.pat, hp[i], rtol=1e-6, atol=0)
                         and np.array_equal(r.pos, ht[i]) and (hi is None or r.inten == hi[i])]
                    if not m:
                        got = None
                        break
                    got.append(m[0])
                    pool.remove(m[0])
                ctx.require(got is not None, 'split_partition', f'{why}: a half has a record which the source did not have')
                ids += [r.id for r in got]
                halves.append((h, got))
                if got:
                    compare(ctx, h, got, mask, why + '(half)')
                    ctx.note('halves_compared')
            ctx.expect(sorted(ids) == sorted(r.id for r in recs), 'split_partition',
                       f'{why}: the halves hold {sorted(ids)}')
            halves = [x for x in halves if x[1]]
            pick = ctx.integer(0, len(halves) - 1)
            if len(halves) == 2:
                # the other half lives on independently
                other, orecs = halves[1 - pick]
                osnap = gen.snapshot_dataset(other)
            d0, (d, recs) = d, halves[pick]
            if ctx.flip() and len(halves) == 2:
                d.patterns += 0
                d.detector_geometry['basis'] = d.detector_geometry['basis'] * 1
                d.mask[0, 0] = d.mask[0, 0]
            d.pad(1)
            recs = [Rec(r.id, r.pos, r.inten, np.pad(r.pat, 1)) for r in recs]
            mask = np.pad(mask, 1)
            f = 2 if min(mask.shape) >= 6 else 1
            d.downsample(f)
            recs, mask = down(recs, mask, f, s.qe_mask is not None)
            if len(halves) == 2:
                ctx.expect(not gen.same_snapshot(osnap, gen.snapshot_dataset(other)),
                           'halves_independent', f'{why}: editing one half changed the other')
            ctx.expect(not gen.same_snapshot(before, gen.snapshot_dataset(d0)),
                       'halves_independent', f'{why}: editing a half changed the source')
        elif op == 'pad':
            p = ctx.choice([1, 2, (1, 2), (0, 1, 2, 0)])
            m = ctx.flip(0.7)
            q = (p,) * 4 if isinstance(p, int) else (p[0], p[0], p[1], p[1]) if len(p) == 2 else p
            w = ((q[2], q[3]), (q[0], q[1]))
            d.pad(p, mask=m)
            recs = [Rec(r.id, r.pos, r.inten, np.pad(r.pat, w)) for r in recs]
            mask = np.pad(mask, w, constant_values=not m)
        elif op == 'down':
            f = 2
            if min(recs[0].pat.shape) < 2 * f:
                continue
            d.downsample(f)
            recs, mask = down(recs, mask, f, s.qe_mask is not None)
        elif op == 'convert':
            extra = {k: tonp(getattr(d, k)).copy() for k in ('qe_mask', 'background') if getattr(d, k, None) is not None}
            how = ctx.choice(['to', 'to', 'to', 'get_as', 'deepcopy', 'pickle'])
            dt = ctx.choice([t.float32, t.float64])
            if how == 'to':
                form = ctx.integer(0, 4)
                if form == 0:
                    d.to(dt)
                elif form == 1:
                    d.to(dtype=dt)
                elif form == 2:
                    d.to('cpu', dt)
                elif form == 3:
                    d.to(device='cpu', dtype=dt)
                else:
                    d.to('cpu')
                ctx.expect(form == 4 or (d.patterns.dtype == dt and d.translations.dtype == dt), 'converted_type', f'{why}: {form} {d.patterns.dtype}')
                # what is stored for the pixels follows, the mask stays a mask
                ctx.expect(form == 4 or all(getattr(d, k).dtype == dt for k in extra), 'converted_type', f'{why}: {form} {list(extra)}')
            elif how == 'get_as':
                d.get_as(device='cpu')
            else:
                d = copy.deepcopy(d) if how == 'deepcopy' else pickle.loads(pickle.dumps(d))
            ctx.expect(isinstance(d, Ptycho2DDataset), 'converted_class', how)
            for k, v in extra.items():
                ctx.close(tonp(getattr(d, k)), v, 'converted_' + k, rtol=1e-6, msg=why)
        else:
            d.to_cxi(f'{ctx.dir}/h{step}.cxi')
            d = Ptycho2DDataset.from_cxi(f'{ctx.dir}/h{step}.cxi')
        ops.append(op)
        ctx.note('edits')
        ctx.note('op:' + op)
        compare(ctx, d, recs, mask, why)
        ctx.equal(d.mask, mask, 'mask', why)
    ctx.param(ops=ops)
    ctx.sig('>'.join(ops), ','.join(str(r.id) for r in recs))
    ctx.sample(ops=ops, start=n, left=[r.id for r in recs])


def refuse(ctx):
    s, d = gen.small_dataset(ctx.rng, n=ctx.integer(3, 9), intensities=None)
    snap = gen.snapshot_dataset(d)
    k = ctx.choice([len(d) - 1, len(d) + 1, 0])
    try:
        d.remove_translations_mask(t.zeros(k, dtype=t.bool))
        ok = False
    except ValueError:
        ok = True
    ctx.sig(len(d), k)
    ctx.expect(ok, 'wrong_length_refused', f'a mask of length {k} was accepted for {len(d)} patterns')
    ctx.expect(not gen.same_snapshot(snap, gen.snapshot_dataset(d)), 'refusal_changes_nothing')


def long(ctx):
    """Scans of any length can be split, cropped and thinned; the records are numbers written into pattern, position and intensity"""
    n = ctx.choice([ctx.integer(1, 60), ctx.integer(4900, 5100), 5000, 5001, ctx.integer(5000, 10000), ctx.integer(9990, 10010), ctx.integer(10000, 26000)])
    ids = np.arange(n)
    xy = np.stack([ids * 1e-6, (ids % 97) * 1e-6, 0 * ids], axis=1)
    pats = np.zeros((n, 2, 3), dtype=np.float32)
    pats[:, 0, 0], pats[:, 1, 2] = ids // 256, ids % 256
    has = ctx.flip(0.7)
    d = Ptycho2DDataset(t.as_tensor(xy), t.as_tensor(pats), intensities=t.as_tensor(ids + 1., dtype=t.float32) if has else None,
                        detector_geometry={'distance': 0.1, 'basis': t.tensor([[0, -1e-5], [-1e-5, 0], [0, 0]])}, wavelength=1e-9)

    def read(d, why):
        pt = tonp(d.patterns)
        got = (pt[:, 0, 0] * 256 + pt[:, 1, 2]).astype(int)
        ctx.expect(len(d) == len(got) == len(d.translations), 'long_lengths', why)
        ctx.expect(np.array_equal(np.round(tonp(d.translations)[:, 0] * 1e6).astype(int), got), 'long_positions', why)
        if has:
            ctx.expect(np.array_equal(tonp(d.intensities).astype(int), got + 1), 'long_intensities', why)
        return got
    left = ids
    ops = []
    for step in range(ctx.integer(1, 4)):
        op = ctx.choice(['split', 'split', 'crop', 'remove'])
        why = f'{op} of {len(left)} after {ops}'
        if op == 'split':
            halves = d.split()
            got = [read(h, why) for h in halves]
            ctx.expect(np.array_equal(np.sort(np.concatenate(got)), np.sort(left)), 'long_split', why)
            ctx.expect(np.array_equal(read(d, why), left), 'long_split_keeps_source', why)
            k = ctx.integer(0, 1)
            if not len(got[k]):
                break
            d, left = halves[k], got[k]
        elif op == 'remove':
            out = ctx.rng.random(len(left)) < ctx.choice([0.02, 0.3])
            if out.all():
                break
            d.remove_translations_mask(t.as_tensor(out))
            left = left[~out]
        else:
            a, b = np.sort(left[ctx.rng.integers(0, len(left), 2)])
            d.crop_translations(((a - .5) * 1e-6, (b + .5) * 1e-6, -1e-6, 98e-6))
            left = left[(left >= a) & (left <= b)]
        ops.append(op)
        ctx.note('long_edits')
        ctx.expect(np.array_equal(read(d, why), left), 'long_records', why)
    if n > 5000:
        ctx.note('long_scans')
    ctx.sig('long', n, '>'.join(ops), len(left))


WORKLOADS = {'long': (long, 20, 200), 'histories': (histories, 500, 6000), 'refuse': (refuse, 10, 40)}
