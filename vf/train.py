"""Helpers to run reconstructions and to observe them."""
import contextlib, copy, re, threading, time
import numpy as np
import torch as t
from cdtools.models import CDIModel
from cdtools import tools, reconstructors
from vf import gen, models as vm
from vf.core import tonp


class Toy(CDIModel):
    """A small model of the kind which users write themselves"""
    def __init__(self, n, shape, rng, loss='amplitude mse', mask=None, normalizer=True):
        super().__init__()
        c = lambda *s: t.as_tensor((rng.normal(size=s) + 1j * rng.normal(size=s)).astype(np.complex64))
        self.field = t.nn.Parameter(3 * c(*shape))
        self.gain = t.nn.Parameter(t.as_tensor(rng.uniform(0.8, 1.2, n).astype(np.float32)))
        self.offset = t.nn.Parameter(t.as_tensor(rng.uniform(0.5, 1.0, shape).astype(np.float32)))
        self.frozen = t.nn.Parameter(t.as_tensor(rng.normal(size=(3,)).astype(np.float32)), requires_grad=False)
        self.slope = t.nn.Parameter(t.as_tensor(0.1 * rng.normal(size=2).astype(np.float32)))
        L = tools.losses
        self.loss, cls = {
            'amplitude mse': (lambda *a, **k: L.amplitude_mse(*a, **k, use_sum=True), L.AmplitudeMSENormalizer),
            'poisson nll': (L.poisson_nll, L.SimplePoissonNLLNormalizer),
            'intensity mse': (lambda *a, **k: L.intensity_mse(*a, **k, use_sum=True), L.IntensityMSENormalizer),
        }[loss]
        if normalizer:
            self.loss_normalizer = cls()
        if mask is not None:
            self.register_buffer('mask', mask)

    def interaction(self, index, translations):
        ph = t.tensordot(translations[:, :2] * 1e6, self.slope, dims=1)
        return self.gain[index][:, None, None] * self.field[None] * t.exp(1j * ph)[:, None, None] + \
            0.3 * ph[:, None, None]

    def forward_propagator(self, w):
        return tools.propagators.far_field(w)

    def backward_propagator(self, w):
        return tools.propagators.inverse_far_field(w)

    def measurement(self, w):
        return tools.measurements.quadratic_background(w, self.offset)

    def regularizer(self, factor):
        f = factor[0] if isinstance(factor, (list, tuple)) else factor
        return f * t.sum(t.abs(self.field) ** 2)


def make_any(ctx, kinds=None, n=None, toy=0.4, **kw):
    """A model of any class, or a toy model"""
    if kinds is None and ctx.flip(toy):
        s = gen.make_spec(ctx.rng, n=n or ctx.integer(3, 9), shape=(ctx.integer(4, 8), ctx.integer(4, 8)))
        gen.decorate(ctx.rng, s, orientation=False)
        ds = gen.build(s)
        loss = ctx.choice(vm.LOSSES)
        m = Toy(s.n, s.shape, ctx.rng, loss, mask=ds.mask if ctx.flip(0.8) else None)
        return vm.Made(kind='toy', spec=s, dataset=ds, model=m, cfg=dict(loss=loss))
    kind = ctx.choice(kinds or vm.KINDS)
    return vm.make(ctx, kind, n=n, **kw)


def strip(history):
    return re.sub(r'in\s+[\d.]+ s with', 'in T s with', history)


def params(m):
    return {k: tonp(v).copy() for k, v in m.state_dict().items()}


def grads(m):
    return {k: None if p.grad is None else tonp(p.grad).copy() for k, p in m.named_parameters()}


def same_params(a, b):
    return [k for k in sorted(set(a) | set(b)) if k not in a or k not in b or a[k].shape != b[k].shape
            or not np.array_equal(a[k], b[k], equal_nan=True)]


def lr_scale(md, dataset=None):
    """Learning rate of SGD which changes no parameter by more than about 1 percent"""
    m = copy.deepcopy(md.model)
    ds = dataset or md.dataset
    (i, tr), pats = ds[np.arange(len(ds))]
    sim = m.forward(i, tr)
    mask = getattr(m, 'mask', None)
    (m.loss(pats, sim, mask=mask) if mask is not None else m.loss(pats, sim)).backward()
    best = np.inf
    for p in m.parameters():
        if p.grad is not None:
            g = float(p.grad.abs().max())
            s = max(float(p.detach().abs().max()), 0.1)
            if g > 0:
                best = min(best, 0.01 * s / g)
    return float(best if np.isfinite(best) else 1e-9)


def phase(ctx, md, opts=('Adam', 'Adam', 'SGD', 'LBFGS'), shuffle=None, subset=True, thread=None,
          max_it=4, schedule=True, reg=True, defaults=False):
    """A random optimization call"""
    opt = ctx.choice(list(opts))
    n = len(md.dataset)
    ph = dict(opt=opt, iterations=ctx.integer(1, max_it), subset=None)
    if subset and ctx.flip(0.35):
        k = ctx.integer(1, n)
        sub = [int(v) for v in ctx.rng.permutation(n)[:k]]
        ph['subset'] = sub[0] if k == 1 and ctx.flip() else sub
    kw = dict(thread=ctx.flip(0.3) if thread is None else thread)
    m = size(ph, md)
    if ctx.flip(0.7):
        kw['calculation_width'] = ctx.choice([1, 2, 3, 10, 30])
    if opt == 'Adam':
        kw.update(lr=10 ** ctx.uniform(-4, -2), batch_size=ctx.integer(1, m + 2))
        if ctx.flip(0.3):
            kw['betas'] = (ctx.uniform(0.1, 0.95), ctx.uniform(0.8, 0.999))
        if ctx.flip(0.3):
            kw['amsgrad'] = True
        if schedule and ctx.flip(0.2):
            kw['schedule'] = True
    elif opt == 'SGD':
        kw.update(lr=lr_scale(md) * ctx.uniform(0.2, 1), batch_size=ctx.integer(1, m + 2))
        if ctx.flip(0.4):
            kw['momentum'] = ctx.uniform(0.1, 0.9)
            if ctx.flip(0.3):
                kw['nesterov'] = True
            elif ctx.flip(0.4):
                kw['dampening'] = ctx.uniform(0, 0.5)
        if ctx.flip(0.3):
            kw['weight_decay'] = ctx.uniform(0, 1)
        if ctx.flip(0.2):
            kw['batch_size'] = None
    else:
        kw.update(lr=ctx.uniform(0.05, 0.5), history_size=ctx.integer(1, 5))
        if getattr(md.model, 'translation_offsets', None) is not None:
            # Long steps would move the windows off the object
            md.model.translation_offsets.requires_grad = False
        if ctx.flip(0.3):
            kw['line_search_fn'] = 'strong_wolfe'
    if reg and md.kind in ('toy', 'rpi') and ctx.flip(0.5):
        f = 10 ** ctx.uniform(-4, -1)
        if md.kind == 'rpi' and opt == 'SGD':
            f = f * 1e-2
        kw['regularization_factor'] = [f, f * 2] if md.kind == 'rpi' or ctx.flip() else f
    if opt != 'LBFGS':
        if ctx.flip(0.4):
            names = [k for k, p in md.model.named_parameters()]
            ph['lr_factors'] = {k: float(ctx.choice([0, 0.1, 0.5, 2.0])) for k in names if ctx.flip(0.5)}
    # values of arguments which are left to their documented defaults
    known = dict(Adam=dict(lr=0.005, batch_size=15), SGD=dict(lr=2e-7), LBFGS=dict(lr=0.1, history_size=2))[opt]
    ph['omit'] = []
    for k, v in known.items() if defaults else ():
        if ctx.flip(0.12) and not (opt == 'SGD' and kw[k] < v):
            kw[k] = v
            ph['omit'].append(k)
    ph['kw'] = kw
    if shuffle is not None:
        ph['shuffle'] = shuffle
    ph['route'] = 'recon'
    if 'shuffle' not in ph and ctx.flip():
        ph['route'] = 'model'
    return ph


def size(ph, md):
    s = ph.get('subset')
    return len(md.dataset) if s is None else 1 if isinstance(s, int) else len(s)


def start(md, ph, model=None, dataset=None, recon=None):
    """-> (the generator of losses, the reconstructor or None)"""
    m = model or md.model
    ds = dataset or md.dataset
    kw = {k: v for k, v in ph['kw'].items() if k not in ph.get('omit', ())}
    lf = ph.get('lr_factors')
    if ph['route'] == 'model' and recon is None:
        if lf is not None:
            kw['lr_factors'] = lf
        fn = getattr(m, ph['opt'] + '_optimize')
        return fn(ph['iterations'], ds, subset=ph['subset'], **kw), None
    if recon is None:
        cls = getattr(reconstructors, ph['opt'] + 'Reconstructor')
        a = dict(subset=ph['subset'])
        if lf is not None:
            a['lr_factors'] = lf
        recon = cls(m, ds, **a)
    if ph['opt'] != 'LBFGS' and 'shuffle' in ph:
        kw['shuffle'] = ph['shuffle']
    return recon.optimize(ph['iterations'], **kw), recon


def selection(ph, md):
    n = len(md.dataset)
    s = ph['subset']
    return list(range(n)) if s is None else [s] if isinstance(s, int) else list(s)


def batches(ph, md, order=None):
    """The batches of an epoch, without shuffling or in the given order"""
    sel = selection(ph, md) if order is None else order
    if ph['opt'] == 'LBFGS':
        return [sel]
    b = ph['kw'].get('batch_size', 15)
    b = 1 if b is None else b
    return [sel[k:k + b] for k in range(0, len(sel), b)]


def independent(md, ph, model, state, orders=None, noise=None, keep=False):
    """The same optimization written down directly with torch. `state` holds what persists with
    the model: normalization of the loss, history."""
    kw = ph['kw']
    lf = ph.get('lr_factors') or {}
    if keep and 'optimizer' in state:
        # the same optimizer with other settings
        opt = state['optimizer']
        for g, (k, p) in zip(opt.param_groups, model.named_parameters()):
            if ph['opt'] == 'LBFGS':
                g.update(lr=kw['lr'], history_size=kw['history_size'], line_search_fn=kw.get('line_search_fn'))
            elif ph['opt'] == 'Adam':
                g.update(lr=kw['lr'] * lf.get(k, 1), betas=kw.get('betas', (0.9, 0.999)),
                         amsgrad=kw.get('amsgrad', False))
            else:
                g.update(lr=kw['lr'] * lf.get(k, 1), momentum=kw.get('momentum', 0), dampening=kw.get('dampening', 0),
                         weight_decay=kw.get('weight_decay', 0), nesterov=kw.get('nesterov', False))
    elif ph['opt'] == 'LBFGS':
        for p in model.parameters():
            p.data = p.data.contiguous()
        opt = t.optim.LBFGS([p for p in model.parameters()], lr=kw['lr'], history_size=kw['history_size'],
                            line_search_fn=kw.get('line_search_fn'))
    else:
        groups = [dict(params=[p], lr=kw['lr'] * lf.get(k, 1)) for k, p in model.named_parameters()]
        if ph['opt'] == 'Adam':
            opt = t.optim.Adam(groups, betas=kw.get('betas', (0.9, 0.999)), amsgrad=kw.get('amsgrad', False))
        else:
            opt = t.optim.SGD(groups, momentum=kw.get('momentum', 0), dampening=kw.get('dampening', 0),
                              weight_decay=kw.get('weight_decay', 0), nesterov=kw.get('nesterov', False))
    state['optimizer'] = opt
    sched = None
    if kw.get('schedule'):
        sched = t.optim.lr_scheduler.ReduceLROnPlateau(opt, factor=0.2, threshold=1e-9)
    cw = kw.get('calculation_width', 10)
    mask = getattr(model, 'mask', None)
    ds = md.dataset
    T, D = ds.translations, ds.patterns
    reg = kw.get('regularization_factor')
    out = []
    for ep in range(ph['iterations']):
        total = 0
        for b in batches(ph, md, None if orders is None else orders[ep]):
            ix = t.as_tensor(b)

            def closure():
                opt.zero_grad()
                s = 0
                if noise is not None:
                    # rounding errors which cancellation amplifies
                    kept = [p.detach().clone() for p in model.parameters()]
                    with t.no_grad():
                        for p in model.parameters():
                            if p.requires_grad:
                                p *= 1 + 2e-7 * t.as_tensor(noise.normal(size=tuple(p.shape))).to(p.abs().dtype)
                for k in range(0, len(b), cw):
                    j = ix[k:k + cw]
                    sim = model.forward(j, T[j])
                    l = model.loss(D[j], sim, mask=mask) if hasattr(model, 'mask') else model.loss(D[j], sim)
                    l.backward()
                    s = s + l.detach()
                if reg is not None and md.kind == 'rpi':
                    # the energy of the main mode, and of the other ones
                    e = (model.obj.abs() ** 2).sum(dim=(1, 2))
                    (reg[0] * e[0] + (reg[1] * e[1:].sum() if len(e) > 1 else 0)).backward()
                elif reg is not None and hasattr(model, 'regularizer'):
                    model.regularizer(reg).backward()
                if noise is not None:
                    with t.no_grad():
                        for p, q in zip(model.parameters(), kept):
                            p.copy_(q)
                    # the size of rounding errors
                    for p in model.parameters():
                        if p.grad is not None:
                            g = p.grad
                            e = t.as_tensor(noise.normal(size=tuple(g.shape)) * 1e-6).to(g.abs().dtype)
                            p.grad = g * (1 + e) + (g != 0) * e * (0.2 * g.abs().max())
                    return s * (1 + 3e-7 * float(noise.normal()))
                return s
            total = total + opt.step(closure).detach()
        if 'norm' not in state:
            from vf import ref
            sel = np.concatenate([np.asarray(b) for b in batches(ph, md)])
            name = md.cfg.get('loss', 'amplitude mse')
            state['norm'] = ref.normalization(name, tonp(D)[sel], None if mask is None else tonp(mask))
        off, div = state['norm']
        val = (float(total) - off) / div
        if sched is not None:
            sched.step(val)
        out.append(val)
    return out


def reference_runs(ctx, md, phases, model, state, orders, n=2, keep=False):
    """The independent run, and runs with rounding errors added to see how sensitive it is.
    -> [(losses, parameters)], or None when it diverges"""
    runs = []
    for k in range(n + 1):
        m, st = copy.deepcopy(model), dict(state)
        noise = None if k == 0 else np.random.default_rng(k)
        losses = []
        try:
            for ph, o in zip(phases, orders):
                losses += independent(md, ph, m, st, o, noise, keep)
        except RuntimeError:
            if finite(m):
                raise
            ctx.note('diverged')
            return None
        p = params(m)
        if not np.all(np.isfinite(losses)) or not all(np.isfinite(v).all() for v in p.values()):
            ctx.note('diverged')
            return None
        runs.append((np.array(losses), p, m, st))
    return runs


def finite(m):
    return all(np.isfinite(v).all() for v in params(m).values())


def collect(ctx, md, gen_):
    """The losses of a run, or None if it diverged"""
    try:
        return [float(v) for v in gen_]
    except RuntimeError:
        if finite(md.model):
            raise
        ctx.note('diverged')
        return None


def judge(ctx, got, gotp, runs, mech, msg):
    """Compare with the first run, with a tolerance from the spread of the others"""
    want, wp, _, st = runs[0]
    off = 1e-4 * abs(st['norm'][0]) / st['norm'][1]
    ctx.expect(len(got) == len(want), 'number_of_epochs', f'{len(got)} {len(want)} {msg}')
    if len(got) == len(want):
        spread = np.max([np.abs(r[0] - want) for r in runs[1:]], axis=0)
        chaotic = np.flatnonzero(spread > 2e-4 * np.abs(want) + off)
        n = int(chaotic[0]) if len(chaotic) else len(want)
        # past this point rounding errors decide
        if n:
            ctx.close(np.array(got[:n]), want[:n], 'losses:' + mech, rtol=1e-5, atol=off + 30 * float(spread[:n].max()),
                      msg=msg)
        if n < len(want):
            ctx.note('chaotic')
            return
    for k, w in wp.items():
        g = gotp.get(k)
        if g is None or g.shape != w.shape:
            ctx.expect(False, 'trajectory:' + mech, f'{k}: shape')
            continue
        if w.size == 0:
            continue
        spread = np.max([np.abs(r[1][k].astype(np.complex128) - w) for r in runs[1:]], axis=0)
        tol = 1e-5 * max(float(np.abs(w).max()), 1e-3) + 30 * spread
        bad = ~(np.abs(g.astype(np.complex128) - w) <= tol)
        ctx.expect(bad.mean() <= 0.05, 'trajectory:' + mech,
                   lambda: f'{k} deviates at {int(bad.sum())} of {bad.size} places, '
                           f'by up to {np.abs(g - w).max():.3g}; {msg}')
        if (30 * spread).max() < 0.3 * np.abs(w - 0).max():
            ctx.note('well_conditioned')


class Watch:
    """Records what happens to a model: which exposures are simulated, the losses of closures,
    the optimizer steps, the threads it happens in."""
    def __init__(self, model):
        self.m = model
        self.forward = []        # (indices, translations, thread name)
        self.epochs = []         # the length of the loss history at these times
        self.losses = []         # the patterns which entered the loss
        self.threads = set()
        self.max_workers = 0
        self.on_forward = None
        self.on_loss = None

    def __enter__(self):
        m = self.m
        self._f, self._l = m.forward, m.loss

        def forward(*a, **k):
            self.threads.add(threading.current_thread().name)
            self.max_workers = max(self.max_workers, len(workers()))
            if self.on_forward is not None:
                self.on_forward(len(self.forward))
            self.forward.append(([int(v) for v in np.atleast_1d(tonp(a[0]))], tonp(a[1]).copy()))
            self.epochs.append(len(m.loss_history))
            return self._f(*a, **k)

        def loss(*a, **k):
            if self.on_loss is not None:
                self.on_loss(len(self.losses))
            self.losses.append(tonp(a[0]).copy())
            return self._l(*a, **k)
        loss.__name__ = getattr(self._l, '__name__', 'loss')
        m.forward, m.loss = forward, loss
        return self

    def order(self, epoch, n):
        """The order in which an epoch first used its exposures"""
        out = []
        for (ix, _), e in zip(self.forward, self.epochs):
            if e == epoch and len(out) < n:
                out += ix
        return out[:n]

    def __exit__(self, *a):
        self.m.__dict__.pop('forward', None)
        self.m.loss = self._l
        return False


def workers():
    """Live threads which are not the harness"""
    return [th for th in threading.enumerate() if th is not threading.main_thread() and
            not getattr(th, 'vf_harness', False) and th.is_alive()]


def gone(seconds=3):
    """Whether all workers end, which may take a moment"""
    for k in range(int(seconds * 500)):
        if not workers():
            return True
        time.sleep(0.002)
    return False
