"""The published table of verification binaries."""
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord


def table():
    return np.load("verification_binaries.npy", allow_pickle=True).item()


def masses(src):
    return src.m_1, src.m_2, src.dist, len(src)


def table_masses():
    t = table()
    return t["m_1"], t["m_2"], t["dist"], len(t["m_1"])


def orbits(src):
    return src.f_orb.to(u.Hz), src.ecc, src.max_snr_harmonic


def table_orbits():
    t = table()
    return (t["f_GW"] / 2).to(u.Hz), np.zeros(len(t["m_1"])), np.zeros(len(t["m_1"]), dtype=int) + 2


def sky(src):
    return src.position.lon, src.position.lat, src.position.distance


def table_sky():
    t = table()
    p = SkyCoord(l=t["l_gal"], b=t["b_gal"], distance=t["dist"], frame="galactic").transform_to("barycentrictrueecliptic")
    return p.lon, p.lat, t["dist"]


def orientation(src):
    return src.inclination


def table_orientation():
    return table()["i"]


def data(src):
    return src.labels, src.true_snr


def table_data():
    t = table()
    return t["label"], np.array(t["snr"])


def results(src):
    return src.snr, src.t_merge, src.merged.any(), src.weights


def no_results():
    return None, None, False, None


def some():
    return slice(0, 2)


def refuse():
    raise NotImplementedError()
