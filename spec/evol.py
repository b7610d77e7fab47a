"""Orbital evolution by gravitational-wave emission (Peters 1964; Mandel 2021)."""
import numpy as np
from astropy import constants as const, units as u
from scipy.integrate import odeint, quad
import spec_utils as su


def de_dt(e, times, beta, c_0):
    return -19 / 12 * beta / c_0 ** 4 * e ** (-29 / 19) * (1 - e ** 2) ** (3 / 2) \
        / (1 + 121 / 304 * e ** 2) ** (1181 / 2299)


def inputs(beta, m_1, m_2, a_i, f_orb_i):
    if beta is None and (m_1 is None or m_2 is None):
        raise ValueError("masses or beta")
    if a_i is None and f_orb_i is None:
        raise ValueError("separation or frequency")
    if a_i is None and (m_1 is None or m_2 is None):
        raise ValueError("masses needed for the separation")
    b = su.beta(m_1, m_2) if beta is None else beta
    a = su.a_from_f(f_orb_i, m_1, m_2).to(u.AU) if a_i is None else a_i
    return b, a


def t_merge_circ(beta=None, m_1=None, m_2=None, a_i=None, f_orb_i=None):
    b, a = inputs(beta, m_1, m_2, a_i, f_orb_i)
    return a ** 4 / (4 * b)


def mandel_fit(e):
    p = 0.993382093 + 0.532494018 * e - 13.2267683 * e ** 2 + 154.873214 * e ** 3 - 979.864734 * e ** 4 \
        + 3694.47796 * e ** 5 - 8662.81737 * e ** 6 + 12730.6422 * e ** 7 - 11393.5479 * e ** 8 \
        + 5672.11219 * e ** 9 - 1203.17749 * e ** 10
    return (1 + 0.27 * e ** 10 + 0.33 * e ** 20 + 0.2 * e ** 1000) * (1 - e ** 2) ** (7 / 2) / p


def integrand(e):
    return e ** (29 / 19) * (1 + 121 / 304 * e ** 2) ** (1181 / 2299) / (1 - e ** 2) ** (3 / 2)


def t_merge_one(e, a, b, small, large, exact):
    """one source"""
    if e == 0:
        return a ** 4 / (4 * b)
    c0 = su.c_0(a, e)
    if e < small:
        return c0 ** 4 / (4 * b) * e ** (48 / 19)
    if e > large:
        return c0 ** 4 / (4 * b) * e ** (48 / 19) * (768 / 425) * (1 - e ** 2) ** (-1 / 2) \
            * (1 + 121 / 304 * e ** 2) ** (3480 / 2299)
    if exact:
        return 12 / 19 * c0 ** 4 / b * quad(integrand, 0, e)[0]
    return a ** 4 / (4 * b) * mandel_fit(e)


def t_merge_ecc(ecc_i, a_i=None, f_orb_i=None, beta=None, m_1=None, m_2=None, small_e_tol=0.15,
                large_e_tol=1 - 1e-4, exact=True):
    b, a = inputs(beta, m_1, m_2, a_i, f_orb_i)
    if not isinstance(ecc_i, np.ndarray):
        return t_merge_one(ecc_i, a, b, small_e_tol, large_e_tol, exact)
    a, b = a.to(u.m).value, b.to(u.m ** 4 / u.s).value
    return np.array([t_merge_one(ecc_i[i], a[i], b[i], small_e_tol, large_e_tol, exact)
                     for i in range(len(ecc_i))]) * u.s


def steps(a_i, beta, ecc_i, t_evol, n_step, timesteps, t_merge):
    if timesteps is not None:
        if np.ndim(timesteps) == 1:
            return np.ones(len(a_i))[:, np.newaxis] * timesteps[np.newaxis, :]
        return timesteps
    if t_evol is None:
        t_evol = t_merge(ecc_i=ecc_i, a_i=a_i, beta=beta)
    elif not isinstance(t_evol.value, np.ndarray):
        t_evol = np.ones(len(a_i)) * t_evol
    return t_evol[:, np.newaxis] * (np.arange(n_step) / (n_step - 1))[np.newaxis, :]


def outputs(output_vars, single, values):
    names = [output_vars] if isinstance(output_vars, str) else output_vars
    out = []
    for v in names:
        x = values[v]()
        out.append(x.flatten() if single else x)
    return out if len(out) > 1 else out[0]


def wants_frequency(output_vars):
    names = [output_vars] if isinstance(output_vars, str) else output_vars
    return any([v in ("f_orb", "f_GW") for v in names])


def frequency(a, m_1, m_2):
    """orbital frequency; a merged source is reported at 100 Hz"""
    safe = np.where(a.value == 0, 1e-30 * a.unit, a)      # 1e-30 stands for a separation of zero
    return np.where(safe.value == 1e-30, 100 * u.Hz, su.f_from_a(safe, m_1[:, np.newaxis], m_2[:, np.newaxis]))


def evol_circ(t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None, m_2=None, a_i=None, f_orb_i=None,
              output_vars="f_orb"):
    (m_1, m_2, beta, a_i, f_orb_i), single = su.ensure_array([m_1, m_2, beta, a_i, f_orb_i])
    beta, a_i = inputs(beta, m_1, m_2, a_i, f_orb_i)
    if wants_frequency(output_vars) and (m_1 is None or m_2 is None):
        raise ValueError("masses needed")
    ts = steps(a_i, beta, None, t_evol, n_step, timesteps,
               lambda ecc_i, a_i, beta: a_i ** 4 / (4 * beta))
    left = a_i[:, np.newaxis] ** 4 - 4 * beta[:, np.newaxis] * ts
    left = np.where(left.to(u.m ** 4).value > 0, left, 0)
    a = left ** (1 / 4)
    return outputs(output_vars, single, {"timesteps": lambda: ts, "a": lambda: a,
                                         "f_orb": lambda: frequency(a, m_1, m_2),
                                         "f_GW": lambda: 2 * frequency(a, m_1, m_2)})


def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None, m_2=None, a_i=None, f_orb_i=None,
             output_vars=["ecc", "f_orb"], n_proc=1, avoid_merger=True, exact_t_merge=False, t_before=1 * u.Myr,
             t_merge=None):
    (m_1, m_2, beta, a_i, f_orb_i, ecc_i), single = su.ensure_array([m_1, m_2, beta, a_i, f_orb_i, ecc_i])
    beta, a_i = inputs(beta, m_1, m_2, a_i, f_orb_i)
    if wants_frequency(output_vars) and (m_1 is None or m_2 is None):
        raise ValueError("masses needed")
    c0 = su.c_0(a_i, ecc_i).to(u.m)
    ts = steps(a_i, beta, ecc_i, t_evol, n_step, timesteps,
               lambda ecc_i, a_i, beta: t_merge_ecc(ecc_i=ecc_i, a_i=a_i, beta=beta))
    if avoid_merger:
        if t_merge is None:
            t_merge = t_merge_ecc(ecc_i=ecc_i, a_i=a_i, beta=beta, exact=exact_t_merge)
        frozen = (ts >= t_merge[:, np.newaxis] - t_before) & (np.arange(ts.shape[1]) > 0)[np.newaxis, :]
        sec = ts.to(u.s).value
        last = np.max(np.where(frozen, -1e9 * 365.25 * 86400, sec), axis=1)
        ts = np.where(frozen, last[:, np.newaxis], sec) * u.s
    b, c0v = beta.to(u.m ** 4 / u.s).value, c0.to(u.m).value
    sec = ts.to(u.s).value
    ecc = np.array([odeint(de_dt, ecc_i[i], sec[i], args=(b[i], c0v[i])).flatten() for i in range(len(ecc_i))])
    ecc = np.nan_to_num(ecc, nan=0.0)
    a = lambda: su.a_from_ecc(ecc, c0[:, np.newaxis]).to(u.AU)
    return outputs(output_vars, single, {"timesteps": lambda: ts, "ecc": lambda: ecc, "a": a,
                                         "f_orb": lambda: frequency(a(), m_1, m_2),
                                         "f_GW": lambda: 2 * frequency(a(), m_1, m_2)})


def f_orb_later(f_orb_i, m_c, t_evol, ecc_i=0.0, merge_f=1e9 * u.Hz):
    left = f_orb_i ** (-8 / 3) - 2 ** (32 / 3) * np.pi ** (8 / 3) * t_evol / (5 * const.c ** 5) \
        * (const.G * m_c) ** (5 / 3) * su.peters_f(ecc_i)
    ok = left >= 0
    return np.where(ok, np.where(ok, left, f_orb_i ** (-8 / 3)) ** (-3 / 8), merge_f)


def stationary(f_orb_i, t_evol, ecc_i, m_1=None, m_2=None, m_c=None, stat_tol=1e-2):
    if m_c is None:
        if m_1 is None or m_2 is None:
            raise ValueError("masses needed")
        m_c = su.chirp_mass(m_1, m_2)
    later = f_orb_later(f_orb_i, m_c, t_evol, ecc_i)
    return (later - f_orb_i) / f_orb_i <= stat_tol
