"""C18: strains of a collection of sources."""
from vfa.oblig import *
from checks.srcs import make, meth, mask, hfun
from checks.c12 import SPECS as S0

TECHNIQUE = ("value-flow graphs of the collection's strain methods over every source and harmonic, with merged state and "
             "selection as unknown flags per source, compared with the strain formula applied source by source")
SPECS = S0 + ["source"]


def run(ck):
    for name in ("h_0_n", "h_c_n"):
        for ecc in ("zero", "any"):
            for sel in (False, True):
                for pos in ((False, True) if ecc == "zero" else (False,)):
                    for hs in ("one harmonic", "list", "array", "several"):
                        I = ck.new(SPECS)
                        o = lambda: make(I, merged=True, ecc=ecc, position=pos)
                        n = {"one harmonic": lambda: integer("n"), "list": lambda: py(I, [1, 2, 5]),
                             "array": lambda: ints(I, "n"), "several": lambda: py(I, [3])}[hs]()
                        k1, k2 = {}, {}
                        if sel:
                            k1["which_sources"] = mask(I)
                            k2["which"] = mask(I)
                        ck.ob("get_%s, %s, ecc %s, %s%s" % (name, hs, ecc, "selection" if sel else "all",
                                                            ", sky position" if pos else ""), I,
                              lambda: meth(I, o(), "get_" + name, n, **k1),
                              lambda: callm(I, "spec_source.strains", src=o(), kind=Const(name), harmonics=n, **k2))
