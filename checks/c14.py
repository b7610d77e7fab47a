"""C14: signal-to-noise of a collection of sources."""
from vfa import terms as t
from vfa.oblig import *
from checks.srcs import make, meth, mask, args, tabled
from checks.srcs import settings as own
from checks.c12 import SPECS as S0, curve
from checks.c11 import settings

TECHNIQUE = ("value-flow graphs of the collection's signal-to-noise methods over every source, with circularity, "
             "stationarity, merged state and selection as unknown flags per source, compared element by element with the "
             "formula for that source's kind; returned and stored results are compared")
SPECS = S0 + ["source"]


def collection(I, cls="source.Source", **k):
    """ret(o, method, ...) -> (returned, o.snr, o.max_snr_harmonic)"""
    return make(I, cls, **k)


def after(I, o, name, **kw):
    r = meth(I, o, name, **kw)
    return Tup([r, I.getattr(o, "snr"), I.getattr(o, "max_snr_harmonic")])


def stationary(I, f, args, kwargs):
    """an unknown classification of each source by everything it is told"""
    from vfa import extmodel
    v = I.bind(f, args, kwargs)
    ks = ["f_orb_i", "t_evol", "ecc_i", "m_1", "m_2", "m_c", "stat_tol"]
    vs = [v[k] for k in ks]
    if v["m_c"] is NONE or I.res(v["m_c"]) is NONE:
        vs[5] = I.call(I.get("utils.chirp_mass"), [v["m_1"], v["m_2"]], {})
    vs = [I.res(x) for i, x in enumerate(vs) if i not in (3, 4)]
    r = extmodel.ew(I, lambda *e: t.mk("bapp", "stationary", tuple(t._bool2num(x) for x in e)), vs, dt="b")
    return r


def snr_like(name):
    """an unknown signal-to-noise (and loudest harmonic) of each source by everything told about that source"""
    def stand(I, f, args, kwargs):
        v = I.bind(f, args, kwargs)
        kw = v.pop("kwargs", None) or v.pop("settings", None)
        per, rest = [], []
        d = I.rec(kw) if isinstance(kw, Dct) else None
        if d is not None and d.unknown is None and all(isinstance(k, str) for k in d.d):
            v, kw = dict(d.d, **v), None
        for k in sorted(v):
            x = I.res(v[k])
            if isinstance(x, Arr):
                per.append((k, x))
            elif isinstance(x, Obj) and I.rec(x).cls == "SkyCoord":
                per += [(k + " lon", I.res(I.getattr(x, "lon"))), (k + " lat", I.res(I.getattr(x, "lat")))]
            elif k not in ("n_proc", "ret_max_snr_harmonic", "ret_snr2_by_harmonic"):
                rest.append((k, ("sc", x.e, x.unit.dims) if isinstance(x, Sc) and x.unit is not None else I.key(x)))
        tag = (name, tuple(k for k, x in per), tuple(rest), I.key(kw) if kw is not None else None)
        def get(what, dt, **k):
            return npmodel.ew(I, lambda *e: t.app(what, tuple(t._bool2num(x) for x in e), tag, **k), [x for k, x in per],
                              dt=dt)
        s = get(name, "f", sign="p")
        if I.key(v.get("ret_max_snr_harmonic", FALSEV))[1] is t.TRUE:
            return Tup([s, get("int:loudest " + name, "i", sign="p")])
        return s
    from vfa import npmodel
    return stand


ALIKE = [("legwork.evol.determine_stationarity", "spec_evol.stationary", stationary)] + [
    ("legwork.snr.snr_" + n, "spec_snr." + n, snr_like(n)) for n in (
        "circ_stationary", "ecc_stationary", "circ_evolving", "ecc_evolving")]


def run(ck):
    ALL = (("get_snr_stationary", "spec_source.snr_one_kind", False), ("get_snr_evolving", "spec_source.snr_one_kind", True),
           ("get_snr", "spec_source.snr_all", None))
    for name, spec, ev in ALL:
        for ecc in ("zero", "any"):
            for sel in (False, True):
                for pos in ((False, True) if ecc == "zero" else (False,)):
                    for tm in ((False, True) if ecc == "zero" and ev is not False else (False,)):
                        I = ck.new(SPECS)
                        o = lambda: make(I, merged=True, t_merge=tm, ecc=ecc, position=pos)
                        kw = dict(n_step=integer("n_step", (2, 5))) if ev is not False else {}
                        k1, k2 = dict(kw), dict(kw)
                        if ev is not None:
                            k2["evolving"] = py(I, ev)
                        if sel:
                            k1["which_sources"] = mask(I)
                            k2["which"] = mask(I)
                        k2.setdefault("n_step", py(I, 100))
                        ck.ob("%s, ecc %s, %s%s%s" % (name, ecc, "selection" if sel else "all", ", sky position" if pos else "",
                                                      ", merger times known" if tm else ""), I,
                              lambda: after(I, o(), name, **k1), lambda: callm(I, spec, src=o(), **k2), alike=ALIKE)
    for cls, ev in (("Stationary", False), ("Evolving", True)):
        for ecc in ("zero", "any"):
            for given in (False, True):
                I = ck.new(SPECS)
                if given or ev and ecc == "any":
                    for a, b, stand in ALIKE:
                        I.stubs[a] = I.stubs[b] = stand
                o = lambda: make(I, "source." + cls, merged=True, ecc=ecc)
                kw = dict(t_obs=scal(I, "t_obs", "time", dom=(1e7, 1e9)), instrument=Const("TianQin")) if given else {}
                if ev and given:
                    kw["n_step"] = integer("n_step", (2, 5))
                ck.ob("%s.get_snr, ecc %s%s" % (cls, ecc, ", duration and instrument given" if given else ""), I,
                      lambda: after(I, o(), "get_snr", **kw), lambda: callm(I, "spec_source.snr_one_kind", src=o(), evolving=py(I, ev), **kw),
                      alike=ALIKE)
    # tolerances, settings, tables and the progress report away from their defaults
    for name, spec, ev in ALL:
        for ecc in ("zero", "any"):
            for report in (FALSEV, TRUEV):
                for given in (False, True):
                    I = ck.new(SPECS)
                    for a, b, stand in ALIKE:
                        I.stubs[a] = I.stubs[b] = stand
                    def o(I=I, ecc=ecc, given=given):
                        o = tabled(I, make(I, merged=True, ecc=ecc, t_merge=ecc == "zero", over=own(I)))
                        if given:           # a changed curve would be interpolated again (C15, C16)
                            I.setattr(o, "interpolate_sc", FALSEV)
                            I.setattr(o, "sc", NONE)
                        return o
                    kw = dict(t_obs=scal(I, "t_obs", "time", dom=(1e7, 1e9)), instrument=Const("TianQin")) if given else {}
                    k1, k2 = dict(kw, which_sources=mask(I), verbose=report), dict(kw, which=mask(I))
                    if ev is not None:
                        k2["evolving"] = py(I, ev)
                    if ev is not False:
                        k1["n_step"] = k2["n_step"] = integer("n_step", (2, 5))
                    ck.ob("%s, ecc %s, own tolerances, settings and tables%s%s" % (
                        name, ecc, ", duration and instrument given" if given else "",
                        ", with the progress report" if report is TRUEV else ""), I,
                        lambda: after(I, o(), name, **k1), lambda: callm(I, spec, src=o(), **k2))
