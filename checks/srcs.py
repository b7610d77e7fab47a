"""a collection of sources, built by the analysed constructor from symbolic arrays"""
from vfa.oblig import *

SPECS = ["utils", "strain", "evol"]


def args(I, ax=(N,), ecc="any", unit_=True, size="f", weights=False, position=None, incl=True, pol=True):
    mk = (lambda *a, **k: q(*a, axes=ax, **k)) if ax else scal
    kw = dict(m_1=mk(I, "m_1", "mass"), m_2=mk(I, "m_2", "mass"), dist=mk(I, "dist", "dist"))
    kw["f_orb" if size == "f" else "a"] = mk(I, size, size)
    if ecc == "any":
        kw["ecc"] = mk(I, "ecc", "ecc")
    elif ecc == "zero":
        kw["ecc"] = I.mkarr(ax, t.ZERO) if ax else fl(0.0)
    elif ecc is not None:
        kw["ecc"] = ecc
    if weights:
        kw["weights"] = mk(I, "w", "weight")
    if position:
        kw["position"] = sky(I, ax)
        if incl:
            kw["inclination"] = mk(I, "inc", "angle")
        if pol:
            kw["polarisation"] = mk(I, "pol", "angle")
    return kw


def opaque(I, o, tol=True, harmonics=True, merged=False, t_merge=False, ax=(N,)):
    """replace what the luminosity tables decide by unknowns (only where the attribute exists)"""
    at = I.rec(o).attrs
    if tol and "_ecc_tol" in at:
        at["_ecc_tol"] = Sc(t.sym("ecc_tol", sgn="p", dom=(0.01, 0.2)), None, "float")
    if harmonics:
        for n, hi in (("harmonics_required", None), ("max_strain_harmonic", None)):
            if n in at:
                at[n] = hfun(I, n)
    if merged and "merged" in at:
        at["merged"] = I.mkarr(ax, t.sym("merged", ax, isbool=True), None, "b")
    if t_merge and "t_merge" in at:
        at["t_merge"] = q(I, "t_merge", "time", ax)
    return o


def hfun(I, name):
    """an unknown integer-valued function of eccentricity, between 2 and 10000"""
    from vfa import extmodel

    def info(interp, a, k):
        r = extmodel.ew(interp, lambda e: t.app("int:" + name, t._bool2num(e), sign="p"), list(a) + list(k.values()))
        return r
    return Opq(t.sym("callable:" + name, ()), "callable", info)


def make(I, cls="source.Source", ax=(N,), merged=False, t_merge=False, kw=None, over=None, tol=True, harmonics=True, **opt):
    a = dict(kw if kw is not None else args(I, ax, **opt))
    a.setdefault("interpolate_g", FALSEV)
    a.setdefault("interpolate_sc", FALSEV)
    if over:
        a.update(over)
    o = I.call(I.get(cls), [], a)
    return opaque(I, o, tol=tol, harmonics=harmonics, merged=merged, t_merge=t_merge, ax=ax or (t.ONE,))


def meth(I, o, name, *a, **k):
    return I.call(I.getattr(o, name), list(a), k)


def mask(I, name="chosen", ax=(N,)):
    return I.mkarr(ax, t.sym(name, ax, isbool=True), None, "b")


def settings(I):
    """tolerances, process count and curve settings that differ from the defaults"""
    return dict(n_proc=integer("n_proc", (2, 8)), stat_tol=scal(I, "stat_tol", "eccp", dom=(0.001, 0.1)),
                gw_lum_tol=scal(I, "gw_tol", "eccp", dom=(0.01, 0.1)),
                sc_params=I.new_dict(dict(t_obs=scal(I, "own_t_obs", "time"), L=scal(I, "own_L", "a", dom=(1e8, 1e10)), approximate_R=TRUEV,
                                      confusion_noise=py(I, "huang20"))))


def tabled(I, o):
    """give a collection interpolants of its own, standing for g(n, e) and the sensitivity curve"""
    I.setattr(o, "interpolate_sc", TRUEV)
    I.setattr(o, "g", Opq(t.sym("callable:own_g", ()), "callable"))
    I.setattr(o, "sc", Opq(t.sym("callable:own_sc", ()), "callable"))
    return o
