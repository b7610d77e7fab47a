"""What the elementary formulae are (Peters & Mathews 1963, Peters 1964, Cornish & Larson 2003)."""
import numpy as np
from astropy import constants as const, units as u
from scipy.special import jv


def chirp_mass(m_1, m_2):
    return (m_1 * m_2) ** (3 / 5) * (m_1 + m_2) ** (-1 / 5)


def a_from_f(f_orb, m_1, m_2):
    return (const.G * (m_1 + m_2)) ** (1 / 3) * (2 * np.pi * f_orb) ** (-2 / 3)


def f_from_a(a, m_1, m_2):
    return 1 / (2 * np.pi) * (const.G * (m_1 + m_2) / a ** 3) ** (1 / 2)


def peters_f(e):
    return (1 + 73 / 24 * e ** 2 + 37 / 96 * e ** 4) * (1 - e ** 2) ** (-7 / 2)


def peters_g(n, e):
    j = lambda k: jv(n + k, n * e)
    b1 = j(-2) - 2 * e * j(-1) + 2 / n * j(0) + 2 * e * j(1) - j(2)
    b2 = j(-2) - 2 * j(0) + j(2)
    return n ** 4 / 32 * (b1 ** 2 + (1 - e ** 2) * b2 ** 2 + 4 / (3 * n ** 2) * j(0) ** 2)


def beta(m_1, m_2):
    return 64 / 5 * const.G ** 3 * m_1 * m_2 * (m_1 + m_2) / const.c ** 5


def shape(e):
    """a(e) / c_0 (Peters 1964 Eq. 5.11)"""
    return e ** (12 / 19) / (1 - e ** 2) * (1 + 121 / 304 * e ** 2) ** (870 / 2299)


def c_0(a_i, ecc_i):
    return a_i / shape(ecc_i)


def a_from_ecc(ecc, c0):
    return c0 * shape(ecc)


def fn_dot(m_c, f_orb, e, n):
    if np.any(n < 1):
        raise ValueError("harmonics start at one")
    return n * 48 / (5 * np.pi) * (const.G * m_c) ** (5 / 3) / const.c ** 5 * (2 * np.pi * f_orb) ** (11 / 3) * peters_f(e)


def identity(x):
    return x


def d_plus_sq(theta, phi):
    return 3 / 2048 * (487 + 158 * np.cos(theta) ** 2 + 7 * np.cos(theta) ** 4
                       - 162 * np.sin(2 * phi) ** 2 * (1 + np.cos(theta) ** 2) ** 2)


def d_cross_sq(theta, phi):
    return 3 / 512 * (120 * np.sin(theta) ** 2 + np.cos(theta) ** 2
                      + 162 * np.sin(2 * phi) ** 2 * np.cos(theta) ** 2)


def d_plus_cross(theta, phi):
    return 243 / 512 * np.cos(theta) * np.sin(2 * phi) * (2 * np.cos(phi) ** 2 - 1) * (1 + np.cos(theta) ** 2)


def f_plus_sq(theta, phi, psi):
    return 1 / 4 * (np.cos(2 * psi) ** 2 * d_plus_sq(theta, phi) - np.sin(4 * psi) * d_plus_cross(theta, phi)
                    + np.sin(2 * psi) ** 2 * d_cross_sq(theta, phi))


def f_cross_sq(theta, phi, psi):
    return 1 / 4 * (np.cos(2 * psi) ** 2 * d_cross_sq(theta, phi) + np.sin(4 * psi) * d_plus_cross(theta, phi)
                    + np.sin(2 * psi) ** 2 * d_plus_sq(theta, phi))


def ensure_array(args):
    out = []
    scalar = False
    for a in args:
        if a is None:
            out.append(None)
        elif isinstance(a, u.Quantity):
            if isinstance(a.value, np.ndarray):
                out.append(a)
            else:
                scalar = True
                out.append(np.asarray([a.value]) * a.unit)
        elif isinstance(a, (list, np.ndarray)):
            out.append(np.asarray(a))
        else:
            scalar = True
            out.append(np.asarray([a]))
    return out, scalar
