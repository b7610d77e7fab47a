"""C08: stationarity and source masks."""
from checks.srcs import *

TECHNIQUE = ("value-flow graphs of the frequency evolution, the stationarity test and the source mask, compared with "
             "the integrated Peters equation")


def run(ck):
    E, S = "evol.", "spec_evol."

    def base(I, **extra):
        kw = dict(f_orb_i=q(I, "f", "f"), t_evol=scal(I, "t", "time", dom=(1e6, 1e12)))
        kw.update(extra)
        return kw
    cases = {"circular by default": lambda I: {}, "eccentric": lambda I: dict(ecc_i=q(I, "ecc", "ecc")),
             "one eccentricity": lambda I: dict(ecc_i=scal(I, "ecc", "ecc")),
             "time per source": lambda I: dict(t_evol=q(I, "tt", "time", dom=(1e6, 1e12))),
             "chosen merger frequency": lambda I: dict(merge_f=scal(I, "mf", "f", dom=(10, 1e3)))}
    for n, c in cases.items():
        I = ck.new(SPECS)
        kw = {**base(I), "m_c": q(I, "m_c", "mass"), **c(I)}
        ck.ob("frequency after a time, %s" % n, I, lambda: callm(I, E + "evolve_f_orb_circ", **kw),
              lambda: callm(I, S + "f_orb_later", **kw))
    cases = {"chirp mass": lambda I: dict(m_c=q(I, "m_c", "mass")),
             "component masses": lambda I: dict(m_1=q(I, "m_1", "mass"), m_2=q(I, "m_2", "mass")),
             "both": lambda I: dict(m_1=q(I, "m_1", "mass"), m_2=q(I, "m_2", "mass"), m_c=q(I, "m_c", "mass")),
             "one mass only": lambda I: dict(m_1=q(I, "m_1", "mass")),
             "other mass only": lambda I: dict(m_2=q(I, "m_2", "mass")),
             "no mass": lambda I: {},
             "tolerance": lambda I: dict(m_c=q(I, "m_c", "mass"), stat_tol=scal(I, "tol", "ecc", dom=(1e-4, 0.5))),
             "zero tolerance": lambda I: dict(m_c=q(I, "m_c", "mass"), stat_tol=fl(0))}
    for n, c in cases.items():
        I = ck.new(SPECS)
        kw = dict(base(I, ecc_i=q(I, "ecc", "ecc")), **c(I))
        ck.ob("stationarity from %s" % n, I, lambda: callm(I, E + "determine_stationarity", **kw),
              lambda: callm(I, S + "stationary", **kw))
    # masks of a collection
    for circ in (None, True, False, 2, "yes"):
        for stat in (None, True, False, 3, "no"):
            for tn in (("default", "given", "auto") if stat in (True, False) and circ is None else ("default",)):
                for inst in (("LISA", "TianQin", "custom") if stat in (True, False) and circ is None else ("LISA",)):
                    I = ck.new(SPECS + ["source"])
                    sp = {} if inst == "LISA" else dict(sc_params=py(I, {"instrument": inst}))
                    s = make(I, over=sp, merged=True)
                    kw = dict(circular=py(I, circ), stationary=py(I, stat))
                    if tn == "given":
                        kw["t_obs"] = scal(I, "t_obs", "time", dom=(1e6, 1e9))
                    elif tn == "auto":
                        kw["t_obs"] = py(I, "auto")
                    ck.ob("mask circular=%r stationary=%r, t_obs %s, %s" % (circ, stat, tn, inst), I,
                          lambda: meth(I, s, "get_source_mask", **kw), lambda: callm(I, "spec_source.mask", s, **kw))
    for stat in (True, False):
        I = ck.new(SPECS + ["source"])
        s = make(I, over=dict(sc_params=I.npm.topy(I, {}), stat_tol=scal(I, "tol", "ecc", dom=(1e-4, 0.5))))
        I.call(I.getattr(I.getattr(s, "sc_params"), "update"), [], dict(t_obs=scal(I, "t_obs", "time", dom=(1e6, 1e9))))
        ck.ob("mask with the collection's own duration and tolerance, stationary=%r" % stat, I,
              lambda: meth(I, s, "get_source_mask", stationary=py(I, stat)),
              lambda: callm(I, "spec_source.mask", s, stationary=py(I, stat)))
