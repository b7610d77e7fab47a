"""C11: choosing the instrument and its defaults."""
from vfa.oblig import *

TECHNIQUE = ("value-flow graphs of power_spectral_density for every instrument and every combination of 'auto' and "
             "given settings, compared with the instrument's own defaults; calls into caller-supplied functions are "
             "compared argument by argument")
FR = dict(dom=(1e-9, 1e3))


def custom(I, name="custom_psd"):
    """a caller-supplied curve: an unknown function of everything it is given, by keyword"""
    def info(interp, a, k):
        ks = {n: interp.key(v) for n, v in sorted(k.items()) if n != "f"}
        f = k.get("f", a[0] if a else None)
        rest = (tuple(interp.key(x) for x in a[1:]), tuple(sorted(ks.items())))
        e = t.app("user:" + name, interp.elem(f), rest)
        return interp.mkarr(f.axes, e, un.TABLE["Hz"] ** -1) if isinstance(f, Arr) else Sc(e, un.TABLE["Hz"] ** -1, "float")
    return Opq(t.sym("callable:" + name, ()), "callable", info)


def noise(I, name="user noise"):
    def info(interp, a, k):
        v = list(a) + list(k.values())
        f = v[0]
        e = t.app("user:" + name, interp.elem(f), interp.elem(v[1]) if len(v) > 1 else t.ZERO)
        return interp.mkarr(f.axes, e, un.TABLE["Hz"] ** -1) if isinstance(f, Arr) else Sc(e, un.TABLE["Hz"] ** -1, "float")
    return Opq(t.sym("callable:" + name, ()), "callable", info)


def settings(I, which):
    kw = {}
    if "t_obs" in which:
        kw["t_obs"] = scal(I, "t_obs", "time", dom=(1e6, 1e9))
    if "L" in which:
        kw["L"] = scal(I, "L", "a", u="km", dom=(1e8, 1e10))
    if "R" in which:
        kw["approximate_R"] = TRUEV
    if "noise" in which:
        kw["confusion_noise"] = noise(I)
    for m in ("robson19", "huang20", "karnesis21", "thiele21", "None", "bogus"):
        if m in which:
            kw["confusion_noise"] = py(I, None if m == "None" else m)
    return kw


COMBOS = [(), ("t_obs",), ("L",), ("R",), ("noise",), ("None",), ("robson19",), ("huang20", "t_obs"), ("karnesis21",),
          ("thiele21",), ("thiele21", "t_obs"), ("t_obs", "L", "R"), ("t_obs", "L", "R", "noise"), ("bogus",),
          ("L", "None"), ("t_obs", "robson19")]


def run(ck):
    fn, sp = "psd.power_spectral_density", "spec_psd.curve"
    for inst in ("default", "LISA", "TianQin", "DECIGO", "custom", "lisa", "", None):
        for which in COMBOS:
            if inst in ("lisa", "", None) and len(which) > 1:
                continue
            for tag in ("array", "one frequency"):
                if tag != "array" and len(which) > 1:
                    continue
                I = ck.new("psd")
                kw = dict(f=q(I, "f", "f", **FR) if tag == "array" else scal(I, "f", "f", **FR))
                if inst != "default":
                    kw["instrument"] = py(I, inst)
                kw.update(settings(I, which))
                if inst in ("custom", "LISA"):
                    kw["custom_psd"] = custom(I)
                ck.ob("%s with %s, %s" % (inst, "+".join(which) or "defaults", tag), I, lambda: callm(I, fn, **kw),
                      lambda: callm(I, sp, **kw))
    for f2, s2 in (("lisa_psd", "lisa"), ("tianqin_psd", "tianqin"), ("decigo_psd", "decigo")):
        for tag in ("array", "one frequency"):
            I = ck.new("psd")
            kw = dict(f=q(I, "f", "f", **FR) if tag == "array" else scal(I, "f", "f", **FR), confusion_noise=noise(I),
                      t_obs=scal(I, "t_obs", "time", dom=(1e6, 1e9)))
            ck.ob("%s adds the caller's confusion noise, %s" % (f2, tag), I, lambda: callm(I, "psd." + f2, **kw),
                  lambda: callm(I, "spec_psd." + s2, **kw))
    routes(ck)


ROUTES = [(), ("t_obs",), ("L",), ("R",), ("noise",), ("None",), ("huang20",), ("thiele21",), ("t_obs", "L", "R", "noise"), ("bogus",)]


def routes(ck):
    """the same settings through the signal-to-noise functions and through a collection"""
    from checks.c12 import SPECS as S0, body
    from checks.srcs import make, meth
    for inst in ("default", "LISA", "TianQin", "DECIGO", "custom", "lisa"):
        for which in ROUTES:
            if inst == "lisa" and which:
                continue
            for name, spec, ev, ecc in (("circ_stationary", "circ_stationary", 0, 0), ("ecc_stationary", "ecc_stationary", 0, 1),
                                        ("circ_evolving", "circ_evolving", 1, 0), ("ecc_evolving", "ecc_evolving", 1, 1)):
                if ev and ecc and len(which) == 1 and inst not in ("LISA", "custom"):
                    continue
                I = ck.new(S0)
                kw = body(I, bool(ev), bool(ecc))
                s = settings(I, which)
                s.pop("t_obs", None)
                kw.update(s)
                if inst != "default":
                    kw["instrument"] = py(I, inst)
                if inst in ("custom", "LISA"):
                    kw["custom_psd"] = custom(I)
                ck.ob("snr_%s: %s with %s" % (name, inst, "+".join(which) or "defaults"), I,
                      lambda: callm(I, "snr.snr_" + name, **kw), lambda: callm(I, "spec_snr." + spec, **kw))
    for inst in ("default", "LISA", "TianQin", "DECIGO", "custom", "lisa"):
        for which in ((), ("t_obs",), ("t_obs", "L", "R", "noise"), ("None",), ("huang20",)):
            if inst == "lisa" and which:
                continue
            for interp in (True, False):
                def named(I):
                    d = {} if inst == "default" else {"instrument": py(I, inst)}
                    d.update(settings(I, which))
                    if inst == "custom":
                        d["custom_psd"] = custom(I)
                    return d
                tag = "%s with %s%s" % (inst, "+".join(which) or "defaults", ", interpolated" if interp else "")
                I = ck.new(S0 + ["source"])
                d = named(I)
                kw = dict(sc_params=I.new_dict(d)) if d else {}
                ck.ob("a collection's curve: " + tag, I,
                      lambda: callm(I, "spec_source.state", src=make(I, ecc="zero", over=dict(
                          interpolate_sc=py(I, interp), **kw)), f=q(I, "f", "f", (M,), **FR)),
                      lambda: callm(I, "spec_source.made", f=q(I, "f", "f", (M,), **FR), interpolate=py(I, interp),
                                    given=I.new_dict(d)))
                # None in a call means the collection's own setting
                for ev in () if "None" in which else (False, True):
                    I = ck.new(S0 + ["source"])
                    d = named(I)
                    o = lambda: make(I, ecc="zero", over=dict(interpolate_sc=py(I, interp)))

                    def ref():
                        x = make(I, ecc="zero", over=dict(interpolate_sc=py(I, interp), sc_params=I.new_dict(d)))
                        return callm(I, "spec_source.snr_one_kind", src=x, evolving=py(I, ev)).items[0]
                    ck.ob("a collection's get_snr_%s: %s" % ("evolving" if ev else "stationary", tag), I,
                          lambda: meth(I, o(), "get_snr_evolving" if ev else "get_snr_stationary", **d), ref)
