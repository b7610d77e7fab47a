"""C09: instrument noise curves."""
from vfa.oblig import *

TECHNIQUE = ("value-flow graphs of the three noise curves for symbolic frequency (in and out of band), arm length, "
             "duration, response choice and confusion model, compared with the published curves")
FR = dict(dom=(1e-9, 1e3))


def noise(I, how):
    if how == "custom":
        f = ufun(I, "user noise", sign="p")
        g = f.info if hasattr(f, "info") else None
        return f
    return py(I, how)


def run(ck):
    for fn, sp in (("lisa_psd", "lisa"), ("tianqin_psd", "tianqin"), ("decigo_psd", "decigo")):
        for tag in ("array", "one frequency"):
            fr = lambda I: q(I, "f", "f", **FR) if tag == "array" else scal(I, "f", "f", **FR)
            for cn in ("default", "karnesis21", "robson19", "huang20", "thiele21", None, "nonsense"):
                for how in ("default", "arm", "approximate", "duration"):
                    if tag != "array" and how != "default":
                        continue
                    I = ck.new("psd")
                    kw = dict(f=fr(I))
                    if cn != "default":
                        kw["confusion_noise"] = py(I, cn)
                    if how == "arm":
                        kw["L"] = scal(I, "L", "a", u="km", dom=(1e8, 1e10))
                    if how == "approximate":
                        kw["approximate_R"] = TRUEV
                    if how == "duration":
                        kw["t_obs"] = scal(I, "t_obs", "time", dom=(1e7, 3e8))
                    ck.ob("%s, %s, confusion %s, %s" % (fn, tag, cn, how), I, lambda: callm(I, "psd." + fn, **kw),
                          lambda: callm(I, "spec_psd." + sp, **kw))
    I = ck.new("psd")
    kw = dict(f=q(I, "f", "f", **FR), f_low=scal(I, "f_low", "f", dom=(1e-4, 1e-2)),
              f_high=scal(I, "f_high", "f", dom=(1e-2, 1e2)))
    ck.ob("decigo_psd with the caller's band", I, lambda: callm(I, "psd.decigo_psd", **kw),
          lambda: callm(I, "spec_psd.decigo", **kw))
    I = ck.new("psd", missing=("R.npy",))
    kw = dict(f=q(I, "f", "f", **FR))
    ck.ob("missing response table falls back to the fit", I, lambda: callm(I, "psd.lisa_psd", **kw),
          lambda: callm(I, "spec_psd.lisa", missing=TRUEV, **kw))
    for tag in ("array", "one frequency"):
        I = ck.new("psd")
        f = q(I, "f", "f", u=None, **FR) if tag == "array" else scal(I, "f", "f", u=None, **FR)
        fs = scal(I, "fstar", "f", u=None, dom=(1e-3, 1))
        ck.ob("tabulated response, %s" % tag, I, lambda: callm(I, "psd.load_response_function", f, fs),
              lambda: callm(I, "spec_psd.response_table", f, fs))
        ck.ob("tabulated response at the LISA transfer frequency, %s" % tag, I,
              lambda: callm(I, "psd.load_response_function", f), lambda: callm(I, "spec_psd.response_table", f, fl("0.01909")))
        ck.ob("response fit, %s" % tag, I, lambda: callm(I, "psd.approximate_response_function", f, fs),
              lambda: callm(I, "spec_psd.response_fit", f, fs))
