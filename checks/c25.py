"""C25: the verification binaries are the sources of the published table."""
from vfa.oblig import *
from checks.srcs import meth, opaque, mask
from checks.c12 import SPECS as S0
from checks.c14 import ALIKE, after

TECHNIQUE = ("value-flow graphs of every attribute of the collection over an unknown table with the columns of the data file, compared "
             "with the attribute's own column, unit and order")
SPECS = S0 + ["source", "binaries"]


def run(ck):
    new = lambda: ck.new(SPECS)
    vb = lambda I: callm(I, "source.VerificationBinaries")


    def turned(I):
        """with known angles instead of the random ones and the exact curve instead of the interpolated one"""
        o = opaque(I, vb(I))
        I.setattr(o, "polarisation", q(I, "turn", "angle", (t.axis_sym("V", 2),)))
        I.setattr(o, "interpolate_sc", FALSEV)
        I.setattr(o, "sc", NONE)
        return o
    for part in ("masses", "orbits", "sky", "orientation", "data"):
        I = new()
        ck.ob("verification binaries: " + part, I, lambda: callm(I, "spec_binaries." + part, src=vb(I)),
              lambda: callm(I, "spec_binaries.table_" + part))
    I = new()
    ck.ob("verification binaries start without results", I, lambda: callm(I, "spec_binaries.results", src=vb(I)),
          lambda: callm(I, "spec_binaries.no_results"))
    for ind in ("number", "mask", "slice"):
        I = new()
        k = {"number": lambda: py(I, 0), "mask": lambda: mask(I), "slice": lambda: callm(I, "spec_binaries.some")}[ind]
        ck.ob("verification binaries can't be subset by " + ind, I, lambda: I.getitem(vb(I), k()), lambda: callm(I, "spec_binaries.refuse"))
    for name, spec in (("get_snr", "spec_source.snr_all"), ("get_snr_stationary", "spec_source.snr_one_kind"),
                       ("get_snr_evolving", "spec_source.snr_one_kind")):
        for given in (False, True):
            I = new()
            for a, b, stand in ALIKE:
                I.stubs[a] = I.stubs[b] = stand
            kw = dict(t_obs=scal(I, "t_obs", "time", dom=(1e7, 1e9)), instrument=Const("TianQin"), confusion_noise=Const("huang20")) if given else {}
            k2 = dict(kw, evolving=py(I, name.endswith("evolving"))) if spec.endswith("kind") else kw
            ck.ob("%s of the verification binaries%s" % (name, ", settings given" if given else ""), I,
                  lambda: after(I, turned(I), name, **kw), lambda: callm(I, spec, src=turned(I), **k2))
