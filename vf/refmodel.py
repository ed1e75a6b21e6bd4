"""Float64 reference of the complete forward models, from the spec of the dataset, the
configuration and the values of the trainable parameters."""
import numpy as np
from vf import ref, models as vm
from vf.core import tonp


OVERRIDE = {}          # float64 values which replace the ones of the model (finite differences)


def P(m, name):
    if name in OVERRIDE:
        return OVERRIDE[name]
    v = getattr(m, name, None)
    if v is None:
        return None
    v = tonp(v)
    return v.astype(np.complex128 if np.iscomplexobj(v) else np.float64)


def forward(made, idx, aux=None):
    """Intensities for the exposures idx, float64"""
    s, m, c = made.spec, made.model, made.cfg
    kind = made.kind
    if kind == 'rpi':
        return rpi(made, idx)
    pix = vm.pixel_positions(made, offsets=P(m, 'translation_offsets'))
    ov = int(c.get('oversampling', 1) or 1)
    full = tuple(x * ov for x in s.shape)
    obj = P(m, 'obj')
    probe = P(m, 'probe')
    norm = float(m.probe_norm)
    out = []
    if kind == 'simple':
        for k in idx:
            tr = ref.rounded(pix[k])
            ew = norm * probe * ref.window(obj, tr, full)
            out.append(np.abs(ref.ff(ew)) ** 2 + 1e-7)
        return np.array(out)
    if c.get('exponentiate_obj'):
        obj = np.exp(1j * (obj.real if c.get('phase_only') else obj))
    sup = np.ones(probe.shape[-2:])
    r = c.get('probe_support_radius')
    if r is not None:
        y = np.arange(probe.shape[-2]) - (probe.shape[-2] - 1) / 2
        x = np.arange(probe.shape[-1]) - (probe.shape[-1] - 1) / 2
        sup = (np.sqrt(y[:, None] ** 2 + x[None, :] ** 2) < r) * 1.0
    basis_prs = probe * sup
    if c.get('fourier_probe'):
        basis_prs = ref.iff(basis_prs)
    W = P(m, 'weights')
    qe = P(m, 'qe_mask')
    bg = P(m, 'background')
    T = tonp(made.dataset.translations).astype(np.float64)
    n = np.array([0, 0, 1.])
    if kind in ('fancy', 'multislice') and s.sample_info is not None and 'orientation' in s.sample_info:
        n = s.sample_info['orientation'][2]
    if c.get('scattering_mode') in ('t', 'transmission'):
        n = np.array([0, 0, 1.])
    pfs = P(m, 'probe_fourier_shifts')
    props = None
    if kind == 'bragg':
        ob = s.true_obj_basis
        nn = np.cross(ob[:, 1], ob[:, 0])
        vz = -(nn[0] * T[:, 0] + nn[1] * T[:, 1]) / nn[2]
        props = vz - T[:, 2]
        props = props - np.sort(props)[(len(props) - 1) // 2]     # the lower median
    for k in idx:
        if W is None:
            prs = basis_prs
        elif W.ndim == 1:
            prs = W[k] * basis_prs
        else:
            prs = np.tensordot(W[k], basis_prs, axes=1)
        if c.get('simulate_probe_translation') or pfs is not None:
            d = np.zeros(2)
            if pfs is not None:
                d = d + pfs[k]
            if c.get('simulate_probe_translation'):
                v = np.array([T[k, 0], T[k, 1], -(n[0] * T[k, 0] + n[1] * T[k, 1]) / n[2]])
                d = d + np.linalg.pinv(s.basis) @ v
            h, w = prs.shape[-2:]
            ip = 2 * np.pi * ov * np.arange(h) / (h - 1)
            jp = 2 * np.pi * ov * np.arange(w) / (w - 1)
            prs = prs * np.exp(1j * (d[0] * ip[:, None] + d[1] * jp[None, :]))
        if kind == 'bragg' and c.get('propagate_probe', True):
            asp = ref.tilted_angular_spectrum(prs.shape[-2:], ob, s.wavelength,
                                              np.array([0, 0, 1.]) * props[k] if props[k] else np.array([0, 0, 1e-30]),
                                              propagation=np.array([0, 0, 1.]))
            prs = ref.near(prs, asp)
        if prs.shape[-2:] != full:
            prs = ref.iff(ref.fft_pad(ref.ff(prs), full))
        ip = np.floor(pix[k]).astype(int)
        fr = pix[k] - ip
        if kind == 'multislice':
            ew = norm * prs
            dx = np.linalg.norm(s.obj_basis, axis=0)
            asp = ref.angular_spectrum(full, dx, s.wavelength, c['dz'])
            crop = c.get('propagator_fourier_crop')
            if crop:
                a = np.fft.fftshift(asp)
                keep = np.zeros(full)
                keep[crop:-crop, crop:-crop] = 1
                asp = np.fft.ifftshift(a * keep)
            for sl in range(obj.shape[0]):
                ew = ref.sinc_shift(ew, *fr) * ref.window(obj[sl], ip, full)
                ew = ref.sinc_shift_back(ew, *fr)
                ew = ref.near(ew, asp)
        else:
            win = ref.window(obj, ip, full)
            ew = norm * ref.sinc_shift(prs, *fr) * win
            if kind == 'fancy' and c.get('near_field'):
                ew = ref.sinc_shift_back(ew, *fr)
        if kind == 'fancy' and c.get('near_field'):
            z = s.distance / s.M
            dx = np.linalg.norm(s.obj_basis, axis=0) / ov
            det = ref.near(ew, ref.angular_spectrum(full, dx, s.wavelength, z))
        elif kind == 'bragg' and c.get('correct_tilt', True):
            det = ref.high_na_far_field(ew, ob, s.basis / ov, full, s.distance, s.wavelength,
                                        lens=c.get('lens', False))
        else:
            det = ref.ff(ew)
        sat = c.get('saturation')
        out.append(ref.measure(det, bg, ov, bool(c.get('simulate_finite_pixels')),
                               qe if kind == 'fancy' else None, sat))
    return np.array(out)


def rpi(made, idx):
    s, m, c = made.spec, made.model, made.cfg
    probe, obj, W = P(m, 'probe'), P(m, 'obj'), P(m, 'weights')
    ov = int(c.get('oversampling', 1) or 1)
    if c.get('exponentiate_obj'):
        obj = np.exp(1j * (obj.real if c.get('phase_only') else obj))
    obj = obj * P(m, 'obj_support')
    prs = np.tensordot(W, probe, axes=1)
    H, Wd = probe.shape[-2:]
    h, w = obj.shape[-2:]
    F = ref.ff(obj)
    big = np.zeros(obj.shape[:-2] + (H, Wd), complex)
    y0, x0 = H // 2 - h // 2, Wd // 2 - w // 2
    big[..., y0:y0 + h, x0:x0 + w] = F
    up = ref.iff(big) * np.sqrt(H * Wd / (h * w))
    waves = (prs[:, None] * up[None]).reshape(-1, H, Wd)
    I = ref.measure(ref.ff(waves), P(m, 'background'), ov, False, None, c.get('saturation'))
    return np.broadcast_to(I, (len(idx),) + I.shape).copy()
