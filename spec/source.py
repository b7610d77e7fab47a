"""What a collection of sources computes, from its public attributes."""
import numpy as np
from astropy import units as u
import spec_utils as su
import spec_evol as se
import spec_snr as sn
import spec_strain as st
import spec_psd as sp
from scipy.interpolate import interp1d, RectBivariateSpline
import os
from importlib import resources
from copy import copy


def duration(t_obs, instrument):
    if isinstance(t_obs, str):
        return 4 * u.yr if instrument in ("LISA", "DECIGO") else 5 * u.yr
    return t_obs


def is_flag(x):
    return x is None or x is True or x is False


def mask(src, circular=None, stationary=None, t_obs=None):
    if not is_flag(circular) or not is_flag(stationary):
        raise ValueError("None, True or False")
    ok = np.ones(len(src.m_1)) == 1
    if circular is not None:
        ok = ok & ((src.ecc <= src.ecc_tol) == circular)
    if stationary is not None:
        t = duration(src.sc_params["t_obs"] if t_obs is None else t_obs, src.sc_params["instrument"])
        s = se.stationary(src.f_orb, t, src.ecc, m_1=src.m_1, m_2=src.m_2, stat_tol=src.stat_tol)
        ok = ok & (s == stationary)
    return ok


def settings(src, given):
    """what the caller names wins, the rest are the collection's own"""
    return {k: src.sc_params[k] if v is None else v for k, v in given.items()}


def pick(src, m):
    p = src.position
    return (None, None, None) if p is None else (p[m], src.polarisation[m], src.inclination[m])


def upper(h):
    return 10 if h <= 10 else 100 if h <= 100 else 1000 if h <= 1000 else 10000


GROUPS = [(1, 10), (10, 100), (100, 1000), (1000, 10000)]


def of_circular(src, s, t, n_step, m, evolving):
    kw = {k: v for k, v in s.items() if k != "t_obs"}
    if evolving:
        tm = None if src.t_merge is None else src.t_merge[m]
        return sn.circ_evolving(m_1=src.m_1[m], m_2=src.m_2[m], f_orb_i=src.f_orb[m], dist=src.dist[m], t_obs=t,
                                n_step=n_step, t_merge=tm, interpolated_g=src.g, interpolated_sc=src.sc, **kw)
    pos, pol, inc = pick(src, m)
    return sn.circ_stationary(m_c=su.chirp_mass(src.m_1, src.m_2)[m], f_orb=src.f_orb[m], dist=src.dist[m], t_obs=t,
                              position=pos, polarisation=pol, inclination=inc, interpolated_g=src.g,
                              interpolated_sc=src.sc, **kw)


def of_eccentric(src, s, t, n_step, m, evolving, hi):
    kw = {k: v for k, v in s.items() if k != "t_obs"}
    if evolving:
        return sn.ecc_evolving(m_1=src.m_1[m], m_2=src.m_2[m], f_orb_i=src.f_orb[m], dist=src.dist[m], ecc=src.ecc[m],
                               harmonics_required=hi, t_obs=t, n_step=n_step, interpolated_g=src.g,
                               interpolated_sc=src.sc, ret_max_snr_harmonic=True, **kw)
    return sn.ecc_stationary(m_c=su.chirp_mass(src.m_1, src.m_2)[m], f_orb=src.f_orb[m], ecc=src.ecc[m],
                             dist=src.dist[m], t_obs=t, harmonics_required=hi, interpolated_g=src.g,
                             interpolated_sc=src.sc, ret_max_snr_harmonic=True, **kw)


def snr_of(src, s, n_step, which, evolving):
    """signal-to-noise and loudest harmonic of the chosen sources that have not merged, zero (and two) elsewhere"""
    t = duration(s["t_obs"], s["instrument"])
    alive = which & ~src.merged
    circ = alive & (src.ecc <= src.ecc_tol)
    ecc = alive & (src.ecc > src.ecc_tol)
    snr = np.zeros(len(src.m_1))
    loud = np.repeat(2, len(src.m_1))
    if circ.any():
        snr[circ] = of_circular(src, s, t, n_step, circ, evolving)
    if ecc.any():
        need = src.harmonics_required(src.ecc)
        for lo, hi in GROUPS:
            m = ecc & (need > lo) & (need <= hi)
            if m.any():
                snr[m], loud[m] = of_eccentric(src, s, t, n_step, m, evolving, hi)
    return snr, loud, alive


def snr_one_kind(src, evolving, which=None, n_step=100, t_obs=None, instrument=None, custom_psd=None, L=None,
                 approximate_R=None, confusion_noise=None):
    """(returned, stored signal-to-noise, stored loudest harmonic)"""
    s = settings(src, dict(t_obs=t_obs, instrument=instrument, custom_psd=custom_psd, L=L,
                           approximate_R=approximate_R, confusion_noise=confusion_noise))
    if which is None:
        which = np.ones(len(src.m_1)) == 1
    snr, loud, alive = snr_of(src, s, n_step, which, evolving)
    old = np.zeros(len(src.m_1)) if src.snr is None else src.snr
    was = np.zeros(len(src.m_1)) if src.max_snr_harmonic is None else src.max_snr_harmonic
    return snr[which], np.where(alive, snr, old), np.where(alive, loud, was)


def snr_all(src, which=None, n_step=100, t_obs=None, instrument=None, custom_psd=None, L=None, approximate_R=None,
            confusion_noise=None):
    s = settings(src, dict(t_obs=t_obs, instrument=instrument, custom_psd=custom_psd, L=L,
                           approximate_R=approximate_R, confusion_noise=confusion_noise))
    if which is None:
        which = np.ones(len(src.m_1)) == 1
    t = duration(s["t_obs"], s["instrument"])
    still = se.stationary(src.f_orb, t, src.ecc, m_1=src.m_1, m_2=src.m_2, stat_tol=src.stat_tol)
    snr, loud = np.zeros(len(src.m_1)), src.max_snr_harmonic
    for kind, evolving in ((still, False), (~still, True)):
        if (which & kind & ~src.merged).any():
            x, l, m = snr_of(src, s, n_step, which & kind, evolving)
            snr = np.where(m, x, snr)
            loud = np.where(m, l, np.zeros(len(src.m_1)) if loud is None else loud)
    return snr, snr, loud


def strains(src, kind, harmonics, which=None):
    """strain amplitude (or characteristic strain) of the chosen sources, zero where the source has merged"""
    if which is None:
        which = np.ones(len(src.m_1)) == 1
    alive = which & ~src.merged
    h = np.zeros((len(src.m_1), 1 if isinstance(harmonics, int) else len(harmonics)))
    pos, pol, inc = pick(src, alive)
    f = st.h_0_n if kind == "h_0_n" else st.h_c_n
    h[alive, :] = f(m_c=su.chirp_mass(src.m_1, src.m_2)[alive], f_orb=src.f_orb[alive], ecc=src.ecc[alive], n=harmonics,
                    dist=src.dist[alive], position=pos, polarisation=pol, inclination=inc, interpolated_g=src.g)[:, 0, :]
    return h[which, :]


def merger_time(src, save_in_class=True, which_sources=None, exact=True):
    """(returned, kept)"""
    which = np.ones(len(src.m_1)) == 1
    if which_sources is not None and not save_in_class:
        which = which_sources
    alive = which & ~src.merged
    t = np.zeros(len(src.m_1)) * u.Gyr
    t[alive] = se.t_merge_ecc(ecc_i=src.ecc[alive], f_orb_i=src.f_orb[alive], m_1=src.m_1[alive], m_2=src.m_2[alive],
                              exact=exact).to(u.Gyr)
    return t[which], t if save_in_class else src.t_merge


def one_time(t, m):
    return t if isinstance(t.value, (int, float)) else t[m]


def evolved(src, t_evol):
    """eccentricity, frequency, merger time left and merged state after t_evol"""
    left = merger_time(src)[1] if src.t_merge is None else src.t_merge
    gone = t_evol >= left
    c = (src.ecc == 0) & ~gone
    e = (src.ecc != 0) & ~gone
    ecc = np.zeros(len(src.m_1))
    f = np.where(gone, 100, 0) * u.Hz
    if c.any():
        f[c] = se.evol_circ(t_evol=one_time(t_evol, c), n_step=2, m_1=src.m_1[c], m_2=src.m_2[c], f_orb_i=src.f_orb[c])[:, -1]
    if e.any():
        r = se.evol_ecc(t_evol=one_time(t_evol, e), n_step=2, m_1=src.m_1[e], m_2=src.m_2[e], f_orb_i=src.f_orb[e],
                        ecc_i=src.ecc[e], avoid_merger=False)
        ecc[e] = r[0][:, -1]
        f[e] = r[1][:, -1]
    return ecc, f, np.maximum(0 * u.Gyr, left - t_evol), gone


def keeps(src):
    """what time does not change"""
    p = src.position
    return (src.m_1, src.m_2, src.dist, src.weights, src.inclination, src.polarisation,
            None if p is None else (p.lon, p.lat, p.distance), src.stat_tol, src.gw_lum_tol, src.n_proc,
            {k: src.sc_params[k] for k in ("instrument", "custom_psd", "t_obs", "L", "approximate_R", "confusion_noise")},
            src.interpolate_sc, src.g, src.sc)


def changes(src):
    return src.ecc, src.f_orb, src.t_merge, src.merged


def evolved_in_place(src, t_evol):
    return evolved(src, t_evol), keeps(src)


def evolved_copy(src, t_evol):
    """(new collection, the old one as it was apart from the merger times it now knows)"""
    left = merger_time(src)[1] if src.t_merge is None else src.t_merge
    return evolved(src, t_evol), keeps(src), (src.ecc, src.f_orb, left, src.merged), keeps(src)


def view(src):
    """everything a user can read off a collection"""
    return keeps(src), changes(src), src.snr, src.max_snr_harmonic, src.ecc_tol, src.n_sources, len(src), src.m_c, src.a


def numbers(n, ind):
    if isinstance(ind, int):
        return np.array([ind])
    if isinstance(ind, slice):
        return np.arange(n)[ind]
    return np.asarray(ind)


def subset(src, ind):
    """the view a subset has to give"""
    k = numbers(len(src.m_1), ind)
    if k.dtype == bool and len(k) != len(src.m_1):
        raise ValueError("length")
    at = lambda x: None if x is None else x[k]
    p = src.position
    kept = (at(src.m_1), at(src.m_2), at(src.dist), at(src.weights), at(src.inclination), at(src.polarisation),
            None if p is None else (p.lon[k], p.lat[k], p.distance[k])) + keeps(src)[7:]
    n = len(src.m_1[k])
    return (kept, (src.ecc[k], src.f_orb[k], at(src.t_merge), src.merged[k]), at(src.snr), at(src.max_snr_harmonic),
            src.ecc_tol, n, n, su.chirp_mass(src.m_1[k], src.m_2[k]), su.a_from_f(src.f_orb[k], src.m_1[k], src.m_2[k]))


def tamper(src, i=0):
    """change everything a collection holds"""
    src.m_1[i] = 3 * src.m_1[i]
    src.m_2[i] = 3 * src.m_2[i]
    src.dist[i] = 3 * src.dist[i]
    src.f_orb[i] = 3 * src.f_orb[i]
    src.ecc[i] = 0.123
    src.merged[i] = True
    if src.weights is not None:
        src.weights[i] = 7.0
    if src.t_merge is not None:
        src.t_merge[i] = 3 * src.t_merge[i]
    if src.snr is not None:
        src.snr[i] = 99.0
    if src.max_snr_harmonic is not None:
        src.max_snr_harmonic[i] = 9
    src.sc_params["instrument"] = "TianQin"
    src.sc_params["approximate_R"] = True


def copy_untouched(src, ind):
    """what the original shows after its subset has been changed"""
    part = src[ind]
    tamper(part)
    return view(src)


def original_untouched(src, ind):
    part = src[ind]
    tamper(src)
    return view(part)


KEYS = ("instrument", "custom_psd", "t_obs", "L", "approximate_R", "confusion_noise")
DEFAULTS = {"instrument": "LISA", "custom_psd": None, "t_obs": "auto", "L": "auto", "approximate_R": False,
            "confusion_noise": "auto"}


def interpolated(settings, f):
    """linear interpolation of the noise for these settings from 1e-7 Hz to 2 Hz"""
    x = np.logspace(-7, np.log10(2), 10000) * u.Hz
    y = sp.curve(x, **settings)
    return interp1d(x, y, bounds_error=False, fill_value=1e30)(f.to(u.Hz)) / u.Hz


def state(src, f):
    """settings and noise curve the collection shows"""
    return {k: src.sc_params[k] for k in src.sc_params}, None if src.sc is None else src.sc(f)


def state_for(settings, f, interpolate):
    return settings, interpolated(settings, f) if interpolate else None


def filled(given, base=DEFAULTS):
    for k in given:
        if k not in KEYS:
            raise KeyError(k)
    return {k: given[k] if k in given else base[k] for k in KEYS}


def made(f, interpolate, given=None):
    return state_for(filled({} if given is None else given), f, interpolate)


def called(f, interpolate, own=None, given=None):
    """a call given settings (None where it is not) leaves the collection with them"""
    s = filled({} if own is None else own)
    return state_for({k: given[k] if given.get(k) is not None else s[k] for k in KEYS}, f, interpolate)


# ---- ways of changing the settings; each returns what the collection then shows, or that it was refused
def assign_key(src, d):
    for k in d:
        src.sc_params[k] = d[k]


def update_dict(src, d):
    src.sc_params.update(d)


def update_keywords(src, d):
    src.sc_params.update(**d)


def update_pairs(src, d):
    src.sc_params.update([(k, d[k]) for k in d])


def merge_in(src, d):
    src.sc_params |= d


def default_in(src, d):
    for k in d:
        src.sc_params.setdefault(k, d[k])


def replace_all(src, d):
    src.sc_params = d


def delete_key(src, d):
    for k in d:
        del src.sc_params[k]


def pop_key(src, d):
    for k in d:
        src.sc_params.pop(k)


def pop_default(src, d):
    for k in d:
        src.sc_params.pop(k, None)


def pop_any(src, d):
    src.sc_params.popitem()


def clear_all(src, d):
    src.sc_params.clear()


def tried(change, src, d, f):
    refused = False
    try:
        change(src, d)
    except (KeyError, TypeError):
        refused = True
    return refused, state(src, f)


def want_change(how, d, f, interpolate):
    """keys one by one, all at once, or a fresh start; never removed, never unknown"""
    if how == "remove":
        return True, state_for(filled({}), f, interpolate)
    if how == "default":
        for k in d:
            if k not in KEYS:
                return True, state_for(filled({}), f, interpolate)
        return False, state_for(filled({}), f, interpolate)
    for k in d:
        if k not in KEYS:
            return True, state_for(filled({}), f, interpolate)
    return False, state_for(filled(d), f, interpolate)


def copied(src, d, f):
    """changing copied settings"""
    other = copy(src.sc_params)
    plain = dict(src.sc_params)
    return other == src.sc_params, {k: other[k] for k in other}, plain, len(other)


def want_copied(d, f):
    s = filled(d)
    return True, s, s, 6


def equal_sources(a, b):
    return a.sc_params == b.sc_params, a.sc_params != b.sc_params


def part_follows(src, ind, d, f):
    """the settings of a subset drive the subset's curve only"""
    part = src[ind]
    for k in d:
        part.sc_params[k] = d[k]
    return state(src, f), state(part, f)


def want_part(own, d, f, interpolate):
    s = filled(own)
    return state_for(s, f, interpolate), state_for(filled(d, s), f, interpolate)


def shared_default(first, second, d, f):
    """changing one collection's settings leaves a collection made from the same dictionary alone"""
    for k in d:
        first.sc_params[k] = d[k]
    return state(second, f)


def evolved_follows(src, t, d, f):
    new = src.evolve_sources(t, create_new_class=True)
    for k in d:
        new.sc_params[k] = d[k]
    return state(src, f), state(new, f)


def kind_and_view(src):
    return src.__class__.__name__, view(src), src.interpolate_g, src.interpolate_sc


def g_at(src, n, e):
    return None if src.g is None else src.g(n, e)


def derived(src):
    """what follows from the component masses and the orbital frequencies"""
    return (len(src.m_1), len(src.m_1), su.chirp_mass(src.m_1, src.m_2), src.f_orb, su.a_from_f(src.f_orb, src.m_1, src.m_2))


def read_derived(src):
    return src.n_sources, len(src), src.m_c, src.f_orb, src.a


def after_separation(src, a):
    src.f_orb = su.f_from_a(a, src.m_1, src.m_2)
    return derived(src)


def first_eccentric(tol):
    """the smallest of 10000 evenly spaced eccentricities up to 0.2 at which harmonic 2 carries less than 1 - tol of the power"""
    e = np.linspace(0.0, 0.2, 10000)
    return e[su.peters_g(2, e) < (1 - tol) * su.peters_f(e)][0]


def tolerances(src, e):
    return (src.gw_lum_tol, src.ecc_tol, src.harmonics_required(e), src.max_strain_harmonic(e))


def loudest_harmonic(e):
    """the harmonic with the largest g(n,e) at the tabulated eccentricities, interpolated and rounded to a harmonic"""
    table = np.load(os.path.join(resources.files("legwork"), "harmonics.npz"), allow_pickle=True)
    e_min, e_max, n_e = table["e_lims"]
    grid = 1 - np.logspace(np.log10(1 - e_min), np.log10(1 - e_max), n_e.astype(int))
    loudest = np.argmax(table["g_vals"], axis=1) + 1
    return in_table(e, np.round(np.interp(e, grid, loudest)).astype(int), grid)


def in_table(e, x, grid=None):
    """nothing is said about eccentricities beyond the table"""
    if grid is None:
        e_min, e_max, n_e = np.load(os.path.join(resources.files("legwork"), "harmonics.npz"), allow_pickle=True)["e_lims"]
        grid = 1 - np.logspace(np.log10(1 - e_min), np.log10(1 - e_max), n_e.astype(int))
    return np.where(np.logical_and(e >= grid[0], e <= grid[-1]), x, 0)


def looked_up(n, e):
    table = np.load(os.path.join(resources.files("legwork"), "peters_g.npy"))
    return RectBivariateSpline(np.arange(1, 10001), np.linspace(0, 1, 1000), table.T).ev(n, e)


def constructed(m_1, m_2, ecc, dist, n_proc=1, f_orb=None, a=None, position=None, polarisation=None, inclination=None,
                weights=None, gw_lum_tol=0.05, stat_tol=1e-2):
    """what a new collection holds"""
    if f_orb is None and a is None:
        raise ValueError("size")
    if position is None and (inclination is not None or polarisation is not None):
        raise ValueError("orientation without position")
    one = np.atleast_1d
    m_1, m_2, ecc, dist = one(m_1), one(m_2), one(ecc), one(dist)
    f_orb = one(f_orb) if f_orb is not None else su.f_from_a(one(a), m_1, m_2)
    weights = None if weights is None else one(weights)
    for x in (m_2, ecc, dist, f_orb) + (() if weights is None else (weights,)):
        if len(x) != len(m_1):
            raise ValueError("length")
    if position is not None and np.any(ecc != 0.0):
        raise ValueError("eccentric sources have no response")
    at = None
    if position is not None:
        position = position.transform_to("barycentrictrueecliptic")
        at = one(position.lon), one(position.lat)
    none = np.zeros(len(m_1)).astype(bool)
    return (m_1, m_2, ecc, dist, f_orb, at, None if polarisation is None else one(polarisation),
            None if inclination is None else one(inclination), weights, gw_lum_tol, stat_tol, n_proc, none, None, None, None)


def contents(src, orientation=True):
    p = src.position
    return (src.m_1, src.m_2, src.ecc, src.dist, src.f_orb, None if p is None else (p.lon, p.lat),
            src.polarisation if orientation else None, src.inclination if orientation else None, src.weights,
            src.gw_lum_tol, src.stat_tol, src.n_proc, src.merged, src.t_merge, src.snr, src.max_snr_harmonic)


def want_single(how, own, d, f, interpolate):
    """one setting changed from settings that are not the defaults"""
    s = filled(own)
    if how == "set":
        s = filled(d, s)
    elif how == "replace":
        s = filled(d)
    return False, state_for(s, f, interpolate)
