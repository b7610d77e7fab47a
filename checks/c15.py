"""C15: settings given to a call, the collection's own, and its interpolated curve."""
from vfa.oblig import *
from checks.srcs import make, meth, mask
from checks.c12 import SPECS as S0
from checks.c11 import settings, custom, FR

TECHNIQUE = ("value-flow graphs of the settings and of the collection's noise curve after each call or sequence of calls, "
             "compared with the interpolation of the noise for the settings that should then be in force")
SPECS = S0 + ["source"]
GIVEN = [("default", ()), ("LISA", ("t_obs",)), ("LISA", ("L", "R")), ("TianQin", ()), ("TianQin", ("t_obs", "noise")),
         ("DECIGO", ()), ("DECIGO", ("None",)), ("custom", ("L",)), ("default", ("huang20",)), ("default", ("R",)),
         ("default", ("t_obs", "L", "R", "noise"))]


def named(I, inst, which):
    d = {}
    if inst != "default":
        d["instrument"] = py(I, inst)
    d.update(settings(I, which))
    if inst == "custom":
        d["custom_psd"] = custom(I)
    return d


def dct(I, d):
    return I.new_dict(d)


def run(ck):
    f = lambda I: q(I, "f", "f", (M,), **FR)
    for interp in (True, False):
        for inst, which in GIVEN:
            I = ck.new(SPECS)
            d = named(I, inst, which)
            kw = dict(sc_params=dct(I, d)) if d else {}
            o = lambda **k: make(I, ecc="zero", over=dict(interpolate_sc=py(I, interp), **k))
            tag = "%s %s%s" % (inst, "+".join(which) or "defaults", ", curve interpolated" if interp else "")
            ck.ob("own settings: " + tag, I, lambda: callm(I, "spec_source.state", src=o(**kw), f=f(I)),
                  lambda: callm(I, "spec_source.made", f=f(I), interpolate=py(I, interp), given=dct(I, d)))
            for name in ("get_snr", "get_snr_stationary", "get_snr_evolving"):
                def impl():
                    x = o()
                    meth(I, x, name, **d)
                    return callm(I, "spec_source.state", src=x, f=f(I))
                ck.ob("%s given %s" % (name, tag), I, impl,
                      lambda: callm(I, "spec_source.called", f=f(I), interpolate=py(I, interp), given=dct(I, d)))
    # settings of the collection itself, then two calls in a row
    pairs = [(("TianQin", ()), ("default", ("t_obs",))), (("LISA", ("t_obs", "noise")), ("TianQin", ())),
             (("custom", ("L",)), ("LISA", ())), (("DECIGO", ("t_obs",)), ("default", ("R",))),
             (("LISA", ("R",)), ("default", ())), (("TianQin", ("L",)), ("DECIGO", ()))]
    for interp in (True, False):
        for (i1, w1), (i2, w2) in pairs:
            for name in ("get_snr", "get_snr_stationary", "get_snr_evolving"):
                I = ck.new(SPECS)
                own, d = named(I, i1, w1), named(I, i2, w2)
                ov = dict(interpolate_sc=py(I, interp))
                tag = "%s %s, then %s %s%s" % (i1, "+".join(w1), i2, "+".join(w2), ", curve interpolated" if interp else "")

                def one():
                    x = make(I, ecc="zero", over=dict(ov, sc_params=dct(I, own)))
                    meth(I, x, name, **d)
                    return callm(I, "spec_source.state", src=x, f=f(I))
                ck.ob("own settings, then %s: %s" % (name, tag), I, one, lambda: callm(
                    I, "spec_source.called", f=f(I), interpolate=py(I, interp), own=dct(I, own), given=dct(I, d)))

                def two():
                    x = make(I, ecc="zero", over=ov)
                    meth(I, x, name, **own)
                    meth(I, x, name, **d)
                    return callm(I, "spec_source.state", src=x, f=f(I))
                ck.ob("%s twice: %s" % (name, tag), I, two, lambda: callm(
                    I, "spec_source.called", f=f(I), interpolate=py(I, interp), own=dct(I, own), given=dct(I, d)))
                if name != "get_snr" and not interp:
                    def value():
                        x = make(I, ecc="zero", over=ov)
                        meth(I, x, name, **own)
                        return meth(I, x, name, **d)

                    def alone():
                        x = make(I, ecc="zero", over=dict(ov, sc_params=dct(I, own)))
                        return callm(I, "spec_source.snr_one_kind", src=x, evolving=py(I, name.endswith("evolving")),
                                     **d).items[0]
                    ck.ob("%s after an earlier call with other settings: %s" % (name, tag), I, value, alone)
    # which route the noise takes
    for interp in (True, False):
        for inst, which in GIVEN[:6]:
            for name in ("get_snr_stationary", "get_snr_evolving"):
                I = ck.new(SPECS)
                d = named(I, inst, which)
                o = lambda: make(I, ecc="zero", over=dict(interpolate_sc=py(I, interp)))

                def ref():
                    x = make(I, ecc="zero", over=dict(interpolate_sc=py(I, interp), sc_params=dct(I, d)))
                    return callm(I, "spec_source.snr_one_kind", src=x, evolving=py(I, name.endswith("evolving"))).items[0]
                ck.ob("%s uses the noise of %s %s%s" % (name, inst, "+".join(which) or "defaults",
                                                        ", curve interpolated" if interp else ""), I,
                      lambda: meth(I, o(), name, **d), ref)
