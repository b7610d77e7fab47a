"""What plots show."""
import numpy as np
import astropy.units as u
import spec_source


def histogram_values(x, log):
    v = x.value if isinstance(x, u.Quantity) else x
    return np.log10(v) if log else v


def histogram_limits(lim):
    return np.log10(lim[0]), np.log10(lim[1])


def times(a, b):
    return a * b


def sizes(w):
    return 20 if w is None else w * 20


def frequencies():
    return np.logspace(-5, 0, 1000) * u.Hz


def amplitude(f, noise, characteristic):
    return np.sqrt(f * noise) if characteristic else np.sqrt(noise)


def zeros(y):
    return np.zeros_like(y)


def above(snr, cutoff):
    return snr > cutoff


def points(f, snr, noise, w, characteristic):
    """height above the noise by the signal-to-noise ratio"""
    y = snr * np.sqrt(noise).to(u.Hz**(-1 / 2))
    return f, y * np.sqrt(f) if characteristic else y, sizes(w)


def refuse():
    raise ValueError()


def shown(src, which, merged_too):
    m = np.repeat(True, len(src.m_1)) if which is None else which
    return m if merged_too else np.logical_and(m, np.logical_not(src.merged))


def variable(src, var, m):
    if var == "ecc":
        x = src.ecc * u.dimensionless_unscaled
    elif var == "snr":
        x = src.snr * u.dimensionless_unscaled
    elif var == "f_GW":
        x = src.f_orb * 2
    else:
        x = getattr(src, var)
    return x[m]


def weights_of(src, m):
    return None if src.weights is None else src.weights[m]


def on_curve(src, cutoff):
    stat = spec_source.mask(src, stationary=True)
    return np.logical_and(np.logical_and(stat, src.snr > cutoff), np.logical_not(src.merged))


def dominant(src, m):
    return src.f_orb[m] * src.max_snr_harmonic[m]


def left_out(src, cutoff):
    seen = np.logical_and(src.snr > cutoff, np.logical_not(src.merged))
    return tuple(np.logical_and(spec_source.mask(src, circular=c, stationary=False), seen).any() for c in (True, False))
