"""C10: Galactic confusion noise."""
from vfa.oblig import *

TECHNIQUE = ("value-flow graphs of the four confusion-noise models and their selection for symbolic frequency and "
             "duration, compared with the published fits; rejected inputs compared as raise conditions")
FR = dict(dom=(1e-9, 1e3))
TD = dict(dom=(1e6, 1e9))
MODELS = ["robson19", "huang20", "thiele21", "karnesis21", None]


def run(ck):
    for tag in ("array", "one frequency"):
        for fu in ("Hz", "mHz"):
            fr = lambda I: q(I, "f", "f", u=fu, **FR) if tag == "array" else scal(I, "f", "f", u=fu, **FR)
            for m in MODELS[:4]:
                for dur in (("default", "given") if m != "thiele21" else ("default",)):
                    I = ck.new("psd")
                    kw = dict(f=fr(I))
                    if dur == "given":
                        kw["t_obs"] = scal(I, "t_obs", "time", **TD)
                    ck.ob("%s, %s in %s, duration %s" % (m, tag, fu, dur), I,
                          lambda: callm(I, "psd.get_confusion_noise_" + m, **kw), lambda: callm(I, "spec_psd." + m, **kw))
            for m in MODELS + ["Robson19", "none", "auto", ""]:
                for dur in ("default", "auto", "given", "4 yr", "48 months", "5 yr"):
                    if fu == "mHz" and dur not in ("default", "given"):
                        continue
                    I = ck.new("psd")
                    kw = dict(f=fr(I), model=py(I, m))
                    if dur == "auto":
                        kw["t_obs"] = py(I, "auto")
                    elif dur == "given":
                        kw["t_obs"] = scal(I, "t_obs", "time", **TD)
                    elif dur != "default":
                        n, un_ = (1461, "day") if dur == "48 months" else (int(dur.split()[0]), "yr")
                        kw["t_obs"] = Sc(t.mul(t.num(n), unit(un_).scale), unit(un_), "float")
                    ck.ob("model %r, %s in %s, duration %s" % (m, tag, fu, dur), I,
                          lambda: callm(I, "psd.get_confusion_noise", **kw),
                          lambda: callm(I, "spec_psd.confusion_noise", **kw))
