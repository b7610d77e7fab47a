"""C26: results do not depend on the units in which the arguments are given."""
from vfa.oblig import *
from checks.srcs import make, meth, mask, args
from checks.c12 import SPECS as S0
from checks.c15 import dct
from checks import c23

TECHNIQUE = ("unit inference over value-flow graphs: every call is analysed with each argument in another unit of the same dimension, "
             "where every place that reads a bare number sees that unit's number, and the physical results are compared")
SPECS = S0 + ["source"]
OTHER = {"Msun": ("kg", "Mjup"), "Hz": ("mHz", "kHz"), "AU": ("Rsun", "km"), "kpc": ("Mpc", "m"), "yr": ("s", "Gyr"), "rad": ("deg", "arcmin"),
         "m": ("km", "AU"), "mHz": ("Hz", "kHz"), "km": ("m", "AU")}


def another(u, n):
    """another unit of the same dimension"""
    for a, bs in OTHER.items():
        if u.same(un.TABLE[a]):
            return un.TABLE[bs[n]]
    ks = [k for k in ("m", "s", "kg") if k in un.TABLE]
    if u.dims == (un.TABLE["m"] ** 4 / un.TABLE["s"]).dims:
        return (un.TABLE["AU"] if n else un.TABLE["Rsun"]) ** 4 / un.TABLE["yr"]
    if u.dims == un.TABLE["Hz"].dims:
        return un.TABLE["yr"] ** -1
    return None if ks else None


def conv(I, v, n):
    """the same quantity in another unit, or None"""
    v = I.res(v)
    if isinstance(v, (Arr, Sc)) and v.unit is not None:
        b = another(v.unit, n)
        if b is None:
            return None
        return I.mkarr(v.axes, I.elem(v), b, I.dt(v)) if isinstance(v, Arr) else Sc(v.e, b, v.kind)
    return None


def turned(I, k, which, n):
    out = dict(k)
    for p in which:
        out[p] = conv(I, k[p], n)
    return out


def functions(ck):
    base = ck.new(SPECS)
    for i in range(len(c23.cases(base))):
        name, k0 = c23.cases(base)[i]
        if base.get(name) is None:
            continue
        if name == "psd.load_response_function":
            continue  # takes plain numbers (in the units of fstar)
        with_unit = [p for p in sorted(k0) if conv(base, k0[p], 0) is not None]
        tag = "%s(%s)" % (name, ", ".join(sorted(k0)))
        groups = [[p] for p in with_unit] if len(with_unit) < 2 or ck.tier != "quick" else [[p] for p in with_unit]
        for n in (0, 1):
            for which in ([with_unit] if len(with_unit) > 1 else []) + (groups if n == 0 or ck.tier != "quick" else []):
                I = ck.new(SPECS)
                k = c23.cases(I)[i][1]
                us = ", ".join("%s in %s" % (p, I.res(turned(I, k, [p], n)[p]).unit) for p in which)
                ck.ob("%s: %s" % (tag, us), I, lambda: callm(I, name, **turned(I, c23.cases(I)[i][1], which, n)),
                      lambda: callm(I, name, **c23.cases(I)[i][1]))


def collections(ck):
    for ecc in ("any", "zero"):
        for pos in ((False, True) if ecc == "zero" else (False,)):
            for size in ("f", "a"):
                names = None
                for n in (0, 1):
                    I = ck.new(SPECS)
                    k0 = args(I, ecc=ecc, position=pos, size=size, weights=True)
                    names = [p for p in k0 if conv(I, k0[p], 0) is not None]
                    for which in [names] + ([[p] for p in names] if n == 0 else []):
                        for what in ("view", "h_0_n", "h_c_n", "snr", "merger time", "mask", "evolve"):
                            if what == "snr" and not (which == names or ck.tier != "quick"):
                                continue
                            I = ck.new(SPECS)
                            c23.stub(I)

                            def ask(change):
                                k = args(I, ecc=ecc, position=pos, size=size, weights=True)
                                if change:
                                    k = turned(I, k, which, n)
                                k["sc_params"] = dct(I, c23.settings(I, "LISA"))
                                if change:
                                    s = c23.settings(I, "LISA")
                                    k["sc_params"] = dct(I, dict(s, **{p: conv(I, s[p], n) or s[p] for p in ("t_obs", "L")}))
                                x = make(I, kw=k, merged=True)
                                t_ = scal(I, "t", "time", dom=(1e6, 1e9))
                                t_ = conv(I, t_, n) if change else t_
                                if what == "view":
                                    return callm(I, "spec_source.view", src=x)
                                if what in ("h_0_n", "h_c_n"):
                                    return meth(I, x, "get_" + what, py(I, [1, 2, 3]))
                                if what == "merger time":
                                    return meth(I, x, "get_merger_time", save_in_class=FALSEV)
                                if what == "mask":
                                    return meth(I, x, "get_source_mask", circular=TRUEV, stationary=FALSEV, t_obs=t_)
                                if what == "evolve":
                                    meth(I, x, "evolve_sources", t_)
                                    return callm(I, "spec_source.view", src=x)
                                return meth(I, x, "get_snr")
                            ck.ob("collection with %s%s, ecc %s, %s in %s" % (what, ", sky position" if pos else "", ecc,
                                  " ".join(which), "another unit" if n == 0 else "yet another unit"), I, lambda: ask(True), lambda: ask(False))


def run(ck):
    functions(ck)
    collections(ck)
