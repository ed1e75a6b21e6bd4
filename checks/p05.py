"""P05: a model restored from its saved results predicts and trains like the one which was saved."""
import copy, os
import numpy as np, torch as t
from cdtools import models
from vf import gen, train as tr, models as vm
from vf.core import tonp, Skip

RULE = ('models of all classes with random options and parameters, some after training, saved to a '
        'dictionary or to a file, restored and compared: predictions, losses, gradients, states and '
        'records; distinct by class, options and route')
ASSUMPTIONS = ['which parameters are set to be optimized is not part of the saved results; the normalization '
               'of reported losses starts anew']
REQUIRE = {'frozen': 150, 'restored': 150, 'fancy': 25, 'simple': 15, 'multislice': 25, 'bragg': 15, 'rpi': 15, 'file': 60,
           'dict': 60, 'trained': 40, 'near_field': 3, 'masked': 50, 'independent': 60, 'continued': 80}


def predictions(m, md, idx=None):
    ds = md.dataset
    idx = t.arange(len(ds))
    with t.no_grad():
        return tonp(m.forward(idx, ds.translations)).copy()


def lossgrad(m, md):
    ds = md.dataset
    for p in m.parameters():
        p.grad = None
    sim = m.forward(t.arange(len(ds)), ds.translations)
    mask = getattr(m, 'mask', None)
    l = m.loss(ds.patterns, sim, mask=mask) if hasattr(m, 'mask') else m.loss(ds.patterns, sim)
    l.backward()
    g = tr.grads(m)
    for p in m.parameters():
        p.grad = None
    return float(l.detach()), g


def state(m):
    return {k: tonp(v).copy() for k, v in m.state_dict().items()}


def describes(ctx, md, r, args, text):
    """The results hold the quantities of the model"""
    m = md.model
    c = lambda k, v: ctx.close(np.asarray(r[k]), np.asarray(tonp(v)), 'contents', rtol=1e-6, msg=f'{k}; {text}')
    if md.kind == 'rpi':
        c('probe', m.probe)
        c('obj', m.obj[0])
    else:
        c('probe', m.probe * m.probe_norm)
        c('obj', m.obj)
        c('wavelength', m.wavelength)
    c('probe_basis', m.probe_basis)
    if md.kind != 'simple':
        c('obj_basis', m.obj_basis)
        c('background', m.background ** 2)
    if md.kind in ('fancy', 'multislice', 'bragg'):
        c('weights', m.weights)
        c('oversampling', m.oversampling)
        if args:
            c('original_translations', args[0].translations)
            c('translations', m.corrected_translations(args[0]))
        else:
            ctx.close(r['original_translations'], tonp(md.dataset.translations), 'contents', rtol=1e-6,
                      msg=f'original_translations; {text}')
            ctx.close(r['translations'], tonp(m.corrected_translations(md.dataset)), 'contents', rtol=1e-5,
                      scale=np.abs(tonp(md.dataset.translations)).max(), msg=f'translations; {text}')
    ctx.expect(r['model_class'] == type(m).__name__, 'contents', f'{r["model_class"]}')
    ctx.expect(r['epoch'] == m.epoch and r['training_history'] == m.training_history and
               [float(v) for v in r['loss_history']] == [float(v) for v in m.loss_history], 'contents', 'records')
    sd = {k: tonp(v) for k, v in m.state_dict().items()}
    ctx.expect(not tr.same_params(sd, r['state_dict']), 'contents', f'state_dict; {text}')


def restore(ctx):
    md = vm.make(ctx, strided=False)          # rounding depends on the layout
    m, ds = md.model, md.dataset
    cls = type(m)
    frozen = []
    if ctx.flip(0.4):
        # parameters which are known, or no longer refined
        ps = dict(m.named_parameters())
        able = [k for k, p in ps.items() if p.requires_grad]
        kept = 'probe' if 'probe' in able and ctx.flip(0.3) else 'obj'
        frozen = [k for k in able if k != kept and ctx.flip(0.4)]
        for k in frozen:
            ps[k].requires_grad = False
        ctx.note('frozen')
    if ctx.flip(0.4):
        ph = tr.phase(ctx, md, opts=('Adam', 'SGD'), max_it=3, thread=False)
        if tr.collect(ctx, md, tr.start(md, ph)[0]) is None or not tr.finite(m):
            return
        ctx.note('trained')
    for p in m.parameters():
        p.grad = None
    before = state(m)
    args = (ds,) if ctx.flip(0.8) else ()
    route = ctx.choice(['file', 'dict', 'dict'])
    kw = {}
    text = f'{md.kind} {route} {md.cfg}'
    if route == 'file':
        fn = os.path.join(ctx.dir, 'r.h5')
        if ctx.flip(0.3):
            import pathlib
            fn = pathlib.Path(fn)
        m.save_to_h5(fn, *args)
        new = cls.from_results_h5(fn)
        res = None
    else:
        res = m.save_results(*args)
        new = cls.from_results_dict(res)
        kept = copy.deepcopy(res)
    ctx.expect(not tr.same_params(before, state(m)), 'saving_changes_model', text)
    describes(ctx, md, m.save_results(*args), args, text)
    a, b = state(m), state(new)
    ctx.expect(set(a) == set(b), 'state_keys', f'{sorted(set(a) ^ set(b))}; {text}')
    for k in a:
        if k in b:
            ctx.expect(a[k].dtype == b[k].dtype and a[k].shape == b[k].shape and
                       np.array_equal(a[k], b[k], equal_nan=True), 'state', f'{k}: {a[k].dtype} {a[k].shape} '
                       f'{b[k].dtype} {b[k].shape}; {text}')
    x, y = predictions(m, md), predictions(new, md)
    ctx.equal(y, x, 'predictions', text)
    la, ga = lossgrad(m, md)
    lb, gb = lossgrad(new, md)
    ctx.expect(la == lb or la != la, 'loss', f'{la} {lb}; {text}')
    for k in ga:
        if ga[k] is not None and gb.get(k) is not None:
            ctx.equal(gb[k], ga[k], 'gradient', f'{k}; {text}')
    ctx.expect(type(getattr(m, 'loss_normalizer', None)) is type(getattr(new, 'loss_normalizer', None)), 'loss_kind', text)
    ctx.expect([float(v) for v in new.loss_history] == [float(v) for v in m.loss_history], 'history', text)
    ctx.expect(isinstance(new.loss_history, list), 'history', text)
    ctx.expect(new.epoch == m.epoch and new.training_history == m.training_history, 'records', text)
    if hasattr(m, 'corrected_translations'):
        ctx.equal(tonp(new.corrected_translations(ds)), tonp(m.corrected_translations(ds)), 'translations', text)
    # saving the restored one again
    r1, r2 = m.save_results(*args), new.save_results(*args)
    ctx.expect(set(r1) == set(r2), 'saved_again', f'{set(r1) ^ set(r2)}; {text}')
    for k in r1:
        if k in ('state_dict',):
            continue
        if isinstance(r1[k], np.ndarray):
            ctx.equal(r2[k], r1[k], 'saved_again', f'{k}; {text}')
        else:
            ctx.expect(r1[k] == r2[k], 'saved_again', f'{k}: {r1[k]} {r2[k]}; {text}')
    # It is a model of its own: it trains, and neither the saved one nor the results follow
    req = {k: p.requires_grad for k, p in m.named_parameters()}
    for k, p in new.named_parameters():
        p.requires_grad = req[k]
    third = cls.from_results_dict(res) if res is not None else None
    cont = dict(tr.phase(ctx, md, opts=('Adam', 'SGD'), shuffle=False, max_it=2, thread=False, schedule=False),
                route='recon')
    clean = copy.deepcopy(m)
    nrm = getattr(clean, 'loss_normalizer', None)
    if nrm is not None:
        clean.loss_normalizer = type(nrm)()
    try:
        lc = [float(v) for v in tr.start(md, cont, model=clean)[0]]
    except RuntimeError:
        lc = None
    for (_, p), (_, q) in zip(m.named_parameters(), new.named_parameters()):
        q.requires_grad = p.requires_grad
    try:
        ln = [float(v) for v in tr.start(md, cont, model=new)[0]]
    except RuntimeError:
        if tr.finite(new):
            raise
        ln = None
    if lc is not None and ln is not None:
        ctx.expect(np.array_equal(lc, ln, equal_nan=True), 'continued_losses', f'{lc} {ln}; {text}')
        d = tr.same_params(tr.params(clean), tr.params(new))
        ctx.expect(not d, 'continued_parameters', f'{d}; {text}')
        ctx.note('continued')
    ctx.expect(not tr.same_params(before, state(m)), 'restored_is_connected', f'to the saved model; {text}')
    if third is not None:
        ctx.expect(not tr.same_params(before, state(third)), 'restored_is_connected',
                   f'to another restored model; {text}')
        for k, v in kept['state_dict'].items():
            ctx.expect(np.array_equal(v, res['state_dict'][k], equal_nan=True), 'restored_is_connected',
                       f'to the results: {k}; {text}')
        ctx.note('independent')
    ctx.note('restored')
    ctx.note(md.kind)
    ctx.note(route)
    ctx.note('near_field', int(bool(md.cfg.get('near_field'))))
    ctx.note('masked', int(not tonp(ds.mask).all()))
    ctx.sig(md.kind, sorted((k, str(v)[:20]) for k, v in md.cfg.items()), route, len(args))
    ctx.sample(kind=md.kind, route=route, cfg={k: str(v)[:40] for k, v in md.cfg.items()})


WORKLOADS = {'restore': (restore, 900, 5000)}
