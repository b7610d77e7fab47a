"""Noise curves (Robson+2019, Huang+2020, Kawamura+2011) and Galactic confusion noise."""
import numpy as np
from astropy import constants as const, units as u
from scipy.interpolate import splev, splrep
from importlib import resources
import os


def response_table(f, fstar):
    x, r = np.load(os.path.join(resources.files("legwork"), "R.npy"), allow_pickle=True)
    return splev(f, splrep(x * fstar, r, s=0), der=0)


def response_fit(f, fstar):
    return 3 / 10 / (1 + 6 / 10 * (f / fstar) ** 2)


def in_band(f, low, high):
    return (f >= low) & (f <= high)


def confusion(model, f, t_obs):
    """f in Hz"""
    if model is None or isinstance(model, str):
        return confusion_noise(f * u.Hz, model, t_obs).to(1 / u.Hz).value
    return model(f, t_obs).to(1 / u.Hz).value


def lisa(f, t_obs=4 * u.yr, L=2.5e9 * u.m, approximate_R=False, confusion_noise="karnesis21", missing=False):
    f = f.to(u.Hz).value
    ok = in_band(f, 1e-7, 2.0)
    f = np.where(ok, f, 1e-8)
    fstar = (const.c / (2 * np.pi * L)).to(u.Hz).value
    R = response_fit(f, fstar) if approximate_R or missing else response_table(f, fstar)
    oms = 1.5e-11 ** 2 * (1 + (2e-3 / f) ** 4)
    acc = 3e-15 ** 2 * (1 + (0.4e-3 / f) ** 2) * (1 + (f / 8e-3) ** 4)
    p = (oms + 2 * (1 + np.cos(f / fstar) ** 2) * acc / (2 * np.pi * f) ** 4) / (L.to(u.m).value ** 2 * R) \
        + confusion(confusion_noise, f, t_obs)
    return np.where(ok, p, np.inf) / u.Hz


def tianqin(f, L=np.sqrt(3) * 1e5 * u.km, t_obs=5 * u.yr, approximate_R=None, confusion_noise="huang20"):
    f = f.to(u.Hz).value
    L = L.to(u.m).value
    fstar = const.c.to(u.m / u.s).value / (2 * np.pi * L)
    p = 10 / (3 * L ** 2) * (4 * 1e-30 / (2 * np.pi * f) ** 4 * (1 + 1e-4 / f) + 1e-24) * (1 + 6 / 10 * (f / fstar) ** 2)
    return (p + confusion(confusion_noise, f, t_obs)) / u.Hz


def decigo(f, L=None, t_obs=4 * u.yr, approximate_R=None, confusion_noise="karnesis21", f_low=1e-3 * u.Hz,
           f_high=100 * u.Hz):
    f = f.to(u.Hz).value
    ok = in_band(f, f_low.to(u.Hz).value, f_high.to(u.Hz).value)
    f = np.where(ok, f, 1e-8)
    d = 1 + (f / 7.36) ** 2
    p = 6.53e-48 * d + 4.8e-51 * f ** -4 / d + 5.33e-52 * f ** -4 + confusion(confusion_noise, f, t_obs)
    return np.where(ok, p, np.inf) / u.Hz


def curve(f, instrument="LISA", custom_psd=None, t_obs="auto", L="auto", approximate_R=False, confusion_noise="auto"):
    if instrument == "custom":
        return custom_psd(f=f, L=L, t_obs=t_obs, approximate_R=approximate_R, confusion_noise=confusion_noise)
    if instrument == "LISA":
        arm, noise, years, fn = 2.5e9 * u.m, "karnesis21", 4, lisa
    elif instrument == "TianQin":
        arm, noise, years, fn = np.sqrt(3) * 1e5 * u.km, "huang20", 5, tianqin
    elif instrument == "DECIGO":
        arm, noise, years, fn = L, "karnesis21", 4, decigo
    else:
        raise ValueError("instrument not recognised")
    return fn(f=f, L=arm if isinstance(L, str) else L, t_obs=years * u.yr if isinstance(t_obs, str) else t_obs,
              approximate_R=approximate_R, confusion_noise=noise if isinstance(confusion_noise, str)
              and confusion_noise == "auto" else confusion_noise)


def nearest(t_obs, lengths):
    return np.abs(t_obs.to(u.yr).value - np.array(lengths)).argmin()


def robson19(f, t_obs=4 * u.yr):
    f = f.to(u.Hz).value
    i = nearest(t_obs, [0.5, 1.0, 2.0, 4.0])
    alpha = np.array([0.133, 0.171, 0.165, 0.138])[i]
    beta = np.array([243.0, 292.0, 299.0, -221.0])[i]
    kappa = np.array([482.0, 1020.0, 611.0, 521.0])[i]
    gamma = np.array([917.0, 1680.0, 1340.0, 1680.0])[i]
    fk = np.array([2.58e-3, 2.15e-3, 1.73e-3, 1.13e-3])[i]
    return 9e-45 * f ** (-7 / 3) * np.exp(-f ** alpha + beta * f * np.sin(kappa * f)) * (1 + np.tanh(gamma * (fk - f))) / u.Hz


def huang20(f, t_obs=5 * u.yr):
    f = f.to(u.Hz).value
    i = nearest(t_obs, [0.5, 1.0, 2.0, 4.0, 5.0])
    rows = [[-18.6, -18.6, -18.6, -18.6, -18.6], [-1.22, -1.13, -1.45, -1.43, -1.51],
            [0.009, -0.945, 0.315, -0.687, -0.71], [-1.87, -1.02, -1.19, 0.24, -1.13],
            [0.65, 4.05, -4.48, -0.15, -0.83], [3.6, -4.5, 10.8, -1.8, 13.2], [-4.6, -0.5, -9.4, -3.2, -19.1]]
    x = np.log10(f * 1000)
    p = sum([np.array(rows[k])[i] * x ** k for k in range(7)])
    return np.where((f >= 1e-4) & (f <= 1.0), 10 ** (2 * p), 0) / u.Hz


def thiele21(f):
    x = np.log10(f.to(u.Hz).value)
    p = -540.31545 - 554.061115 * x - 233.748834 * x ** 2 - 44.021504 * x ** 3 - 3.112634 * x ** 4
    return 10 ** p * (4 * u.yr).to(u.s).value / u.Hz


def karnesis21(f, t_obs=4 * u.yr):
    f = f.to(u.Hz).value
    y = t_obs.to(u.yr).value
    f_1 = 10 ** -2.72 * y ** -0.15
    f_knee = 10 ** -2.49 * y ** -0.37
    return 1.15e-44 / 2 * f ** (-7 / 3) * np.exp(-(f / f_1) ** 1.56) * (1 + np.tanh((f_knee - f) / 6.7e-4)) / u.Hz


def confusion_noise(f, model, t_obs="auto"):
    auto = isinstance(t_obs, str)
    if model is None:
        return 0 * f.to(u.Hz).value / u.Hz
    if model == "robson19":
        return robson19(f, 4 * u.yr if auto else t_obs)
    if model == "huang20":
        return huang20(f, 5 * u.yr if auto else t_obs)
    if model == "thiele21":
        if not auto and t_obs != 4 * u.yr:
            raise ValueError("only fitted for four years")
        return thiele21(f)
    if model == "karnesis21":
        return karnesis21(f, 4 * u.yr if auto else t_obs)
    raise ValueError("model not recognised")
