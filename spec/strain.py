"""Strain amplitudes of the n-th harmonic: shape (sources, timesteps or 1, harmonics), no units."""
import numpy as np
from astropy import constants as const, units as u
import spec_utils as su


def amplitude_modulation(position, polarisation, inclination):
    theta = np.pi / 2 * u.rad - position.lat
    phi = position.lon
    return 5 / 4 * (((1 + np.cos(inclination) ** 2) / 2) ** 2 * su.f_plus_sq(theta, phi, polarisation)
                    + np.cos(inclination) ** 2 * su.f_cross_sq(theta, phi, polarisation))


def three(x, kind):
    """broadcastable view: sources x timesteps x harmonics"""
    if kind == "n":
        return x[np.newaxis, np.newaxis, :]
    if x.ndim == 2:
        return x[:, :, np.newaxis]
    return x[:, np.newaxis, np.newaxis]


def power_share(n, e, interpolated_g):
    if interpolated_g is None:
        return su.peters_g(n, e)
    g = interpolated_g(n, e)
    return np.where(g < 0, 0, g)


def modulated(h, position, polarisation, inclination):
    if position is not None or polarisation is not None or inclination is not None:
        m = amplitude_modulation(position, polarisation, inclination)
        h = h * m[:, np.newaxis, np.newaxis] ** 0.5
    return h


def h_0_n(m_c, f_orb, ecc, n, dist, position=None, polarisation=None, inclination=None, interpolated_g=None):
    (m_c, f_orb, ecc, n, dist), _ = su.ensure_array([m_c, f_orb, ecc, n, dist])
    if np.any(n < 1):
        raise ValueError("harmonics start at one")
    m_c, f_orb, ecc, dist = three(m_c, "s"), three(f_orb, "s"), three(ecc, "s"), three(dist, "s")
    n = three(n, "n")
    h = (2 ** (28 / 3) / 5) ** 0.5 * (const.G * m_c) ** (5 / 3) * (np.pi * f_orb) ** (2 / 3) / const.c ** 4 / dist \
        * power_share(n, ecc, interpolated_g) ** 0.5 / n
    return modulated(h, position, polarisation, inclination).decompose().value


def h_c_n(m_c, f_orb, ecc, n, dist, position=None, polarisation=None, inclination=None, interpolated_g=None):
    (m_c, f_orb, ecc, n, dist), _ = su.ensure_array([m_c, f_orb, ecc, n, dist])
    if np.any(n < 1):
        raise ValueError("harmonics start at one")
    m_c, f_orb, ecc, dist = three(m_c, "s"), three(f_orb, "s"), three(ecc, "s"), three(dist, "s")
    n = three(n, "n")
    h = (2 ** (5 / 3) / (3 * np.pi ** (4 / 3))) ** 0.5 * (const.G * m_c) ** (5 / 6) / const.c ** (3 / 2) / dist \
        * f_orb ** (-1 / 6) / su.peters_f(ecc) ** 0.5 * (power_share(n, ecc, interpolated_g) / n) ** 0.5
    return modulated(h, position, polarisation, inclination).decompose().value
