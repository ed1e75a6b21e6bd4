"""P06: nested dictionaries survive files and conversions."""
import os, pathlib, types
from collections import OrderedDict
import h5py
import numpy as np, torch as t
from cdtools.tools import data as cdata
from vf.core import tonp

RULE = ('random nested dictionaries of numbers, arrays, tensors, strings and mappings of many types, '
        'shapes and layouts, through files (by name, path, open file and group) and conversions; '
        'distinct by structure')
ASSUMPTIONS = ['keys contain no "/" and strings no zero character, which HDF5 cannot hold; numbers fit in 64 bits']
# Cases of the quick tier, relative to the numbers below
QUICK = 3
REQUIRE = {'round_trip': 150, 'conversion': 100, 'nested': 100, 'string': 80, 'complex': 80, 'bool': 40,
           'tensor': 80, 'strided': 40, 'empty_array': 15, 'scalar_array': 40, 'unsupported': 30, 'overwritten': 20,
           'group': 20, 'empty_dict': 10, 'half': 5, 'big_int': 5, 'grad': 10, 'conjugated': 20, 'deep': 10}

NP = ['bool', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'float16', 'float32',
      'float64', 'complex64', 'complex128']
TT = [t.bool, t.uint8, t.int8, t.int16, t.int32, t.int64, t.float16, t.float32, t.float64, t.complex64, t.complex128]


def array(ctx, dt=None):
    r = ctx.rng
    dt = np.dtype(dt or ctx.choice(NP))
    nd = ctx.choice([0, 1, 1, 2, 2, 3])
    sh = tuple(ctx.integer(0 if ctx.flip(0.1) else 1, 5) for _ in range(nd))
    strided = nd > 0 and ctx.flip(0.3)
    big = tuple(s * 2 for s in sh) if strided else sh
    if dt.kind == 'b':
        a = r.integers(0, 2, big).astype(bool)
    elif dt.kind in 'iu':
        i = np.iinfo(dt)
        a = r.integers(i.min, i.max, big, dtype=dt, endpoint=True)
    else:
        a = r.normal(size=big) * 10.0 ** r.integers(-3, 4)
        if dt.kind == 'c':
            a = a + 1j * r.normal(size=big)
        a = np.asarray(a).astype(dt)
        if a.size and ctx.flip(0.2):
            f = a.reshape(-1).copy()
            f[r.integers(f.size)] = ctx.choice([np.nan, np.inf, -np.inf, 0.0])
            a = f.reshape(a.shape)
    a = np.asarray(a)
    if strided:
        a = a[tuple(slice(None, None, 2) if ctx.flip() else slice(0, s) for s in sh)]
        a = a[tuple(slice(0, s) for s in sh)]
        if nd == 2 and ctx.flip(0.3):
            a = a.T
        ctx.note('strided', int(not a.flags['C_CONTIGUOUS']))
    ctx.note('empty_array', int(a.size == 0))
    ctx.note('scalar_array', int(a.ndim == 0))
    ctx.note('complex', int(a.dtype.kind == 'c'))
    ctx.note('bool', int(a.dtype.kind == 'b'))
    ctx.note('half', int(a.dtype == np.float16))
    return a


def text(ctx):
    ctx.note('string')
    n = ctx.choice([0, 1, 5, 40])
    alpha = ctx.choice(['abc XYZ09_', 'aä€日\U0001f600\n\t"\'', '{}[]%\\#,;'])
    return ''.join(ctx.choice(list(alpha)) for _ in range(n))


def leaf(ctx, torch_too=True):
    k = ctx.choice(['int', 'float', 'complex', 'bool', 'np', 'array', 'array', 'tensor', 'text'])
    if k == 'int':
        v = ctx.choice([0, -1, 7, 2 ** 40, -2 ** 62])
        ctx.note('big_int', int(abs(v) > 2 ** 32))
        return v
    if k == 'float':
        return ctx.choice([0.1, -1e300, float('nan'), float('inf'), 5e-324, ctx.uniform(-1, 1)])
    if k == 'complex':
        return complex(ctx.uniform(-1, 1), ctx.uniform(-1, 1))
    if k == 'bool':
        return ctx.flip()
    if k == 'np':
        a = array(ctx)
        return a.reshape(-1)[0] if a.size else np.float32(1.5)
    if k == 'array':
        return array(ctx)
    if k == 'text':
        return text(ctx)
    a = np.array(array(ctx, ctx.choice([d for d in NP if d not in ('uint16', 'uint32', 'uint64')])))
    x = t.as_tensor(np.ascontiguousarray(a))
    ctx.note('tensor')
    if x.ndim == 2 and ctx.flip(0.3):
        x = x.T
    if x.is_complex() and ctx.flip(0.3):
        # conjugated when it is looked at
        x = x.conj()
        ctx.note('conjugated')
    return x


def key(ctx, used):
    while True:
        k = ''.join(ctx.choice(list('abcXYZ09_ -äµ:.')) for _ in range(ctx.integer(1, 8)))
        if k not in used and k.strip('.') and k == k.strip():
            return k


def tree(ctx, depth, grad=False):
    d = ctx.choice([dict, dict, OrderedDict])()
    n = ctx.integer(0 if ctx.flip(0.2) else 1, 6)
    for _ in range(n):
        k = key(ctx, d)
        if depth > 0 and ctx.flip(0.3):
            d[k] = tree(ctx, depth - 1, grad)
            ctx.note('nested')
            ctx.note('deep', int(depth <= 1))
        else:
            d[k] = leaf(ctx)
            if grad and t.is_tensor(d[k]) and (d[k].is_floating_point() or d[k].is_complex()) and ctx.flip(0.5):
                d[k] = t.nn.Parameter(d[k])
                ctx.note('grad')
    ctx.note('empty_dict', int(not d))
    return types.MappingProxyType(d) if ctx.flip(0.1) else d


def shape_of(d):
    if isinstance(d, (dict, OrderedDict, types.MappingProxyType)):
        return {k: shape_of(v) for k, v in d.items()}
    if isinstance(d, np.ndarray) or t.is_tensor(d):
        return (str(d.dtype), tuple(d.shape))
    return type(d).__name__


def compare(ctx, got, want, path, mech, numbers='any'):
    from collections.abc import Mapping
    if isinstance(want, Mapping):
        ctx.expect(isinstance(got, Mapping) and set(got) == set(want), mech,
                   f'{path}: {sorted(got) if isinstance(got, Mapping) else type(got)} instead of {sorted(want)}')
        if isinstance(got, Mapping):
            for k in want:
                if k in got:
                    compare(ctx, got[k], want[k], f'{path}/{k}', mech, numbers)
        return
    if isinstance(want, str):
        ctx.expect(isinstance(got, str) and got == want, mech, f'{path}: {got!r} instead of {want!r}')
        return
    g, w = np.asarray(tonp(got) if t.is_tensor(got) else got), np.asarray(tonp(want) if t.is_tensor(want) else want)
    isarr = isinstance(want, np.ndarray) or t.is_tensor(want)
    if isarr or isinstance(want, np.generic):
        ctx.expect(g.dtype == w.dtype, mech, f'{path}: {g.dtype} instead of {w.dtype}')
    else:
        ctx.expect(g.dtype.kind == w.dtype.kind, mech, f'{path}: {g.dtype} instead of {w.dtype}')
    ctx.expect(g.shape == w.shape, mech, f'{path}: {g.shape} instead of {w.shape}')
    if g.shape == w.shape:
        ctx.expect(np.array_equal(g, w, equal_nan=g.dtype.kind in 'fc' and w.dtype.kind in 'fc'), mech,
                   f'{path}: {g} instead of {w}'[:300])


def round_trip(ctx):
    d = tree(ctx, ctx.integer(0, 3), grad=True)
    s = shape_of(d)
    kept = {id(v): tonp(v).copy() for v in d.values() if isinstance(v, np.ndarray) or t.is_tensor(v)}
    fn = os.path.join(ctx.dir, 'x.h5')
    how = ctx.choice(['name', 'path', 'file', 'group'])
    if ctx.flip(0.3) and how in ('name', 'path'):
        with h5py.File(fn, 'w') as f:
            f['left'] = 1
            f.create_group('over/there')
        ctx.note('overwritten')
    if how == 'name':
        cdata.nested_dict_to_h5(fn, d)
        out = cdata.h5_to_nested_dict(fn)
    elif how == 'path':
        cdata.nested_dict_to_h5(pathlib.Path(fn), d)
        out = cdata.h5_to_nested_dict(pathlib.Path(fn))
    elif how == 'file':
        with h5py.File(fn, 'w') as f:
            cdata.nested_dict_to_h5(f, d)
        with h5py.File(fn, 'r') as f:
            out = cdata.h5_to_nested_dict(f)
    else:
        with h5py.File(fn, 'w') as f:
            f['other'] = 5
            cdata.nested_dict_to_h5(f.create_group('g'), d)
        with h5py.File(fn, 'r') as f:
            out = cdata.h5_to_nested_dict(f['g'])
            ctx.expect(f['other'][()] == 5, 'other_contents')
        ctx.note('group')
    compare(ctx, out, d, '', 'file')
    # files of other programs hold a text in an array with one element
    words = {}
    with h5py.File(os.path.join(ctx.dir, 'z.h5'), 'w') as f:
        for k in range(2):
            words[f'w{k}'] = text(ctx)
            f.create_dataset(f'w{k}', data=np.array(words[f'w{k}'], dtype=object).reshape(ctx.choice([(1,), (1, 1), ()])), dtype=h5py.string_dtype())
    got = cdata.h5_to_nested_dict(os.path.join(ctx.dir, 'z.h5'))
    ctx.expect(got == words, 'text_of_one_element', lambda: f'{got} {words}')
    # again, unchanged
    fn2 = os.path.join(ctx.dir, 'y.h5')
    cdata.nested_dict_to_h5(fn2, out)
    compare(ctx, cdata.h5_to_nested_dict(fn2), out, '', 'file_again')
    ctx.expect(shape_of(d) == s, 'input_changed')
    for v in d.values():
        if id(v) in kept:
            ctx.expect(np.array_equal(tonp(v), kept[id(v)], equal_nan=kept[id(v)].dtype.kind in 'fc'), 'input_changed')
    ctx.note('round_trip')
    ctx.sig(how, s)
    ctx.sample(structure=str(s)[:300])


def conversion(ctx):
    d = tree(ctx, ctx.integer(0, 3))
    if ctx.flip(0.5):
        out = cdata.nested_dict_to_numpy(d)
        compare(ctx, out, d, '', 'to_numpy')

        def arrays(o, w, p):
            for k in o:
                if isinstance(o[k], dict):
                    arrays(o[k], w[k], p + '/' + k)
                else:
                    ctx.expect(not t.is_tensor(o[k]), 'to_numpy', f'{p}/{k} is a tensor')
        arrays(out, d, '')
        ctx.sig('numpy', shape_of(d))
    else:
        # torch has fewer types
        def ok(x):
            return {k: ok(v) if hasattr(v, 'items') else v for k, v in x.items()
                    if not (hasattr(v, 'dtype') and not t.is_tensor(v) and v.dtype in (np.uint16, np.uint32, np.uint64))}
        d = ok(d)
        d = {k: v for k, v in d.items()}

        def py(x):
            # arrays with these strides are not supported by torch
            return {k: py(v) if isinstance(v, dict) else
                    np.ascontiguousarray(v).reshape(v.shape) if isinstance(v, np.ndarray) else v for k, v in x.items()}
        d = py(d)
        out = cdata.nested_dict_to_torch(d)

        def walk(o, w, p):
            ctx.expect(set(o) == set(w), 'to_torch', p)
            for k in w:
                if isinstance(w[k], dict):
                    walk(o[k], w[k], p + '/' + k)
                elif isinstance(w[k], str):
                    ctx.expect(o[k] == w[k], 'to_torch', f'{p}/{k}')
                else:
                    ctx.expect(t.is_tensor(o[k]), 'to_torch', f'{p}/{k} is {type(o[k])}')
                    a, b = tonp(o[k]), np.asarray(tonp(w[k]) if t.is_tensor(w[k]) else w[k])
                    if isinstance(w[k], (np.ndarray, np.generic)) or t.is_tensor(w[k]):
                        ctx.expect(a.dtype == b.dtype, 'to_torch', f'{p}/{k} {a.dtype} {b.dtype}')
                    else:
                        # numbers become those of the precision of torch
                        b = b.astype(a.dtype) if a.dtype.kind == b.dtype.kind else b
                    ctx.expect(a.dtype.kind == b.dtype.kind and a.shape == b.shape and
                               np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'), 'to_torch', f'{p}/{k}: {a} {b}'[:300])
        with np.errstate(over='ignore'):
            walk(out, d, '')
        back = cdata.nested_dict_to_numpy(out)
        again = cdata.nested_dict_to_torch(back)
        walk(again, {k: v for k, v in cdata.nested_dict_to_numpy(out).items()}, '')
        ctx.sig('torch', shape_of(d))
    ctx.note('conversion')


def unsupported(ctx):
    """What cannot be stored is reported"""
    d = dict(tree(ctx, 1))
    bad = ctx.choice([[1, 2], (3,), None, object(), {1, 2}, b'bytes'])
    where = d
    if ctx.flip():
        d['sub'] = where = {}
    where['bad'] = bad
    fn = ctx.choice([lambda: cdata.nested_dict_to_h5(os.path.join(ctx.dir, 'b.h5'), d),
                     lambda: cdata.nested_dict_to_numpy(d)])
    try:
        fn()
        ok = False
    except (ValueError, TypeError):
        ok = True
    ctx.expect(ok, 'unsupported_value_accepted', f'{bad!r}')
    ctx.note('unsupported')
    ctx.sig('u', type(bad).__name__)


WORKLOADS = {'round_trip': (round_trip, 300, 6000), 'conversion': (conversion, 250, 5000),
             'unsupported': (unsupported, 60, 400)}
