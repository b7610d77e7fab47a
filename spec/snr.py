"""Signal-to-noise ratios: the sum over harmonics of the strain power over the noise power."""
import numpy as np
from astropy import units as u
import spec_utils as su
import spec_strain as ss
import spec_psd as sp
import spec_evol as se


def noise(f, t_obs, interpolated_sc, settings):
    if interpolated_sc is not None:
        return interpolated_sc(f)
    return sp.curve(f=f, t_obs=t_obs, **settings)


def circ_stationary(m_c, f_orb, dist, t_obs, position=None, polarisation=None, inclination=None, interpolated_g=None,
                    interpolated_sc=None, **settings):
    h = ss.h_0_n(m_c, f_orb, 0 * f_orb.value, 2, dist, position, polarisation, inclination, interpolated_g)[:, 0, 0]
    return (h ** 2 * t_obs / noise(2 * f_orb, t_obs, interpolated_sc, settings)).decompose().value ** (1 / 2)


def by_harmonic_or_total(snr2, ret_max, ret_each):
    if ret_each:
        return snr2
    total = np.sum(snr2, axis=1) ** (1 / 2)
    return (total, np.argmax(snr2, axis=1) + 1) if ret_max else total


def ecc_stationary(m_c, f_orb, ecc, dist, t_obs, harmonics_required, interpolated_g=None, interpolated_sc=None,
                   ret_max_snr_harmonic=False, ret_snr2_by_harmonic=False, **settings):
    n = np.arange(1, harmonics_required + 1)
    h = ss.h_0_n(m_c, f_orb, ecc, n, dist, interpolated_g=interpolated_g)[:, 0, :]
    s = noise(f_orb[:, np.newaxis] * n[np.newaxis, :], t_obs, interpolated_sc, settings)
    return by_harmonic_or_total((h ** 2 * t_obs / s).decompose().value, ret_max_snr_harmonic, ret_snr2_by_harmonic)


def hold_last(f, merged):
    """a merged binary stays at its last frequency before the merger"""
    last = np.max(np.where(merged, -1 * u.Hz, f), axis=1)
    return np.where(f == 100 * u.Hz, last[:, np.newaxis], f)


def circ_evolving(m_1, m_2, f_orb_i, dist, t_obs, n_step, t_merge=None, interpolated_g=None, interpolated_sc=None,
                  **settings):
    if t_merge is None:
        t_merge = se.t_merge_circ(m_1=m_1, m_2=m_2, f_orb_i=f_orb_i)
    t = np.minimum(t_merge - 1 * u.s, t_obs)
    f = se.evol_circ(t_evol=t, n_step=n_step, m_1=m_1, m_2=m_2, f_orb_i=f_orb_i)
    f = hold_last(f, f == 100 * u.Hz)
    h = ss.h_c_n(su.chirp_mass(m_1, m_2), f, 0 * f.value, 2, dist, interpolated_g=interpolated_g)[:, :, 0]
    y = h ** 2 / ((2 * f) ** 2 * noise(2 * f, t_obs, interpolated_sc, settings))
    return np.trapezoid(y=y, x=2 * f, axis=1).decompose().value ** (1 / 2)


def ecc_evolving(m_1, m_2, f_orb_i, dist, ecc, harmonics_required, t_obs, n_step, t_merge=None, interpolated_g=None,
                 interpolated_sc=None, n_proc=1, ret_max_snr_harmonic=False, ret_snr2_by_harmonic=False, **settings):
    if t_merge is None:
        t_merge = se.t_merge_ecc(m_1=m_1, m_2=m_2, f_orb_i=f_orb_i, ecc_i=ecc)
    margin = 0.1 * u.yr
    t = np.minimum(t_merge - margin, t_obs)
    e, f = se.evol_ecc(ecc_i=ecc, t_evol=t, n_step=n_step, m_1=m_1, m_2=m_2, f_orb_i=f_orb_i, t_before=margin,
                       t_merge=t_merge)
    f = hold_last(f, (e == 0) & (f == 100 * u.Hz))
    n = np.arange(1, harmonics_required + 1)
    h = ss.h_c_n(su.chirp_mass(m_1, m_2), f, e, n, dist, interpolated_g=interpolated_g)
    fn = f[:, :, np.newaxis] * n[np.newaxis, np.newaxis, :]
    y = h ** 2 / (fn ** 2 * noise(fn, t_obs, interpolated_sc, settings))
    return by_harmonic_or_total(np.trapezoid(y=y, x=fn, axis=1).decompose().value, ret_max_snr_harmonic,
                                ret_snr2_by_harmonic)
