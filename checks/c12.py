"""C12: stationary signal-to-noise ratios."""
from vfa.oblig import *
from checks.c11 import custom, noise, settings

TECHNIQUE = ("value-flow graphs of the stationary SNR functions over sources x harmonics, for given and interpolated "
             "noise curves and harmonic powers and every return option, compared with the definition")
SPECS = ["utils", "strain", "psd", "evol", "snr"]


def curve(I):
    """an unknown interpolated noise curve"""
    def info(interp, a, k):
        f = list(a) + list(k.values())
        e = t.app("interpolated noise", interp.elem(f[0]), sign="p")
        u_ = un.TABLE["Hz"] ** -1
        return interp.mkarr(f[0].axes, e, u_) if isinstance(f[0], Arr) else Sc(e, u_, "float")
    return Opq(t.sym("callable:interpolated noise", ()), "callable", info)


def body(I, evolving=False, ecc=False):
    kw = dict(dist=q(I, "dist", "dist"), t_obs=scal(I, "t_obs", "time", dom=(1e6, 1e9)))
    if evolving:
        kw.update(m_1=q(I, "m_1", "mass"), m_2=q(I, "m_2", "mass"), f_orb_i=q(I, "f", "f"), n_step=integer("n_step", (2, 6)))
    else:
        kw.update(m_c=q(I, "m_c", "mass"), f_orb=q(I, "f", "f"))
    if ecc:
        kw.update(ecc=q(I, "ecc", "ecc", dom=(0.01, 0.94)), harmonics_required=integer("n_max", (2, 6)))
    return kw


def ways(I, how):
    kw = {}
    if "g" in how:
        kw["interpolated_g"] = ufun(I, "signed g")
    if "sc" in how:
        kw["interpolated_sc"] = curve(I)
    return kw


SET = [dict(), dict(instrument="LISA", L="auto", approximate_R=False, confusion_noise="auto", custom_psd=None),
       dict(instrument="LISA", approximate_R=True, confusion_noise=None), dict(instrument="TianQin"),
       dict(instrument="custom"), dict(instrument="LISA", confusion_noise="robson19"), dict(instrument="nowhere")]


def with_settings(I, st):
    kw = {k: py(I, v) for k, v in st.items()}
    if st.get("instrument") == "custom":
        kw["custom_psd"] = custom(I)
    return kw


def run(ck):
    for how in ("", "g", "sc", "g sc"):
        for st in (SET if "sc" not in how else SET[:2]):
            I = ck.new(SPECS)
            kw = dict(body(I), **ways(I, how), **with_settings(I, st))
            ck.ob("circular, interpolated %s, settings %s" % (how or "nothing", st), I,
                  lambda: callm(I, "snr.snr_circ_stationary", **kw), lambda: callm(I, "spec_snr.circ_stationary", **kw))
            I = ck.new(SPECS)
            kw = dict(body(I, ecc=True), **ways(I, how), **with_settings(I, st))
            ck.ob("eccentric, interpolated %s, settings %s" % (how or "nothing", st), I,
                  lambda: callm(I, "snr.snr_ecc_stationary", **kw), lambda: callm(I, "spec_snr.ecc_stationary", **kw))
        for mx in (True, False):
            for each in (True, False):
                I = ck.new(SPECS)
                kw = dict(body(I, ecc=True), ret_max_snr_harmonic=py(I, mx), ret_snr2_by_harmonic=py(I, each),
                          **ways(I, how))
                ck.ob("eccentric, interpolated %s, strongest harmonic %s, by harmonic %s" % (how or "nothing", mx, each), I,
                      lambda: callm(I, "snr.snr_ecc_stationary", **kw), lambda: callm(I, "spec_snr.ecc_stationary", **kw))
    for how in ("", "sc"):
        for p in (("position", "polarisation", "inclination"), ("position",), ("inclination",)):
            I = ck.new(SPECS)
            kw = dict(body(I), **ways(I, how))
            if "position" in p:
                kw["position"] = sky(I)
            for x in ("polarisation", "inclination"):
                if x in p:
                    kw[x] = q(I, x, "angle")
            if len(p) < 3:
                continue
            ck.ob("circular with sky position, interpolated %s" % (how or "nothing"), I,
                  lambda: callm(I, "snr.snr_circ_stationary", **kw), lambda: callm(I, "spec_snr.circ_stationary", **kw))
