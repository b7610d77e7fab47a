"""C13: evolving signal-to-noise ratios."""
from vfa.oblig import *
from checks.c11 import custom, noise, settings

TECHNIQUE = ("value-flow graphs of the evolving SNR functions over sources x timesteps x harmonics, for given and interpolated "
             "noise curves and harmonic powers and every return option, compared with the definition")
SPECS = ["utils", "strain", "psd", "evol", "snr"]


from checks.c12 import body, ways, with_settings, SET, curve


def run(ck):
    C, S = "snr.snr_circ_evolving", "spec_snr.circ_evolving"
    E, T = "snr.snr_ecc_evolving", "spec_snr.ecc_evolving"
    for how in ("", "g", "sc", "g sc"):
        for st in (SET if "sc" not in how else SET[:2]):
            for tm in ((True, False) if st == {} else (False,)):
                for name, f, g, ecc in (("circular", C, S, False), ("eccentric", E, T, True)):
                    I = ck.new(SPECS)
                    kw = dict(body(I, True, ecc), **ways(I, how), **with_settings(I, st))
                    if tm:
                        kw["t_merge"] = q(I, "t_merge", "time")
                    ck.ob("%s, interpolated %s, merger time %s, settings %s" % (
                        name, how or "nothing", "given" if tm else "computed", st), I, lambda: callm(I, f, **kw),
                        lambda: callm(I, g, **kw))
        for mx in (True, False):
            for each in (True, False):
                I = ck.new(SPECS)
                kw = dict(body(I, True, True), ret_max_snr_harmonic=py(I, mx), ret_snr2_by_harmonic=py(I, each),
                          t_merge=q(I, "t_merge", "time"), **ways(I, how))
                ck.ob("eccentric, interpolated %s, strongest harmonic %s, by harmonic %s" % (how or "nothing", mx, each), I,
                      lambda: callm(I, E, **kw), lambda: callm(I, T, **kw))
    for how in ("", "sc"):
        I = ck.new(SPECS)
        kw = dict(body(I, True, True), t_merge=q(I, "t_merge", "time"), **ways(I, how))
        ck.ob("eccentric, several workers agree with one, interpolated %s" % (how or "nothing"), I,
              lambda: callm(I, E, n_proc=integer("n_proc", (2, 8)), **kw), lambda: callm(I, T, **kw))
