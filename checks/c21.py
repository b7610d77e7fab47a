"""C21: merger times and evolution of a collection."""
from vfa.oblig import *
from checks.srcs import make, settings, tabled, meth, mask
from checks.c12 import SPECS as S0

TECHNIQUE = ("value-flow graphs of get_merger_time and evolve_sources over every source (circular, eccentric, merged, about "
             "to merge) compared with the evolution of each source on its own; attributes of the evolved and the original "
             "collection are compared one by one")
SPECS = S0 + ["source"]


def look(I, o, f):
    return callm(I, "spec_source." + f, src=o)


def run(ck):
    for ecc in ("zero", "any"):
        for merged in (False, True):
            for save in (True, False):
                for sel in (False, True):
                    for exact in (True, False):
                        I = ck.new(SPECS)
                        o = lambda: make(I, merged=merged, ecc=ecc)
                        kw = dict(save_in_class=py(I, save), exact=py(I, exact))
                        if sel:
                            kw["which_sources"] = mask(I)

                        def impl():
                            x = o()
                            r = meth(I, x, "get_merger_time", **kw)
                            return Tup([r, I.getattr(x, "t_merge")])
                        ck.ob("get_merger_time, ecc %s, %s, %s, %s, %s" % (
                            ecc, "some merged" if merged else "none merged", "kept" if save else "not kept",
                            "selection" if sel else "all", "exact" if exact else "fit"), I, impl,
                            lambda: callm(I, "spec_source.merger_time", src=o(), **kw))
    for ecc in ("zero", "any"):
        for known in (True, False):
            for each in (False, True):
                for pos in ((False, True) if ecc == "zero" else (False,)):
                    for w in (False, True):
                        for new in (False, True):
                            I = ck.new(SPECS)
                            def o():
                                x = make(I, merged=True, t_merge=known, ecc=ecc, position=pos, weights=w, over=settings(I))
                                return tabled(I, x) if known else x

                            te = q(I, "t_evol", "time") if each else scal(I, "t_evol", "time")

                            def impl():
                                x = o()
                                y = meth(I, x, "evolve_sources", te, create_new_class=py(I, new))
                                if not new:
                                    return Tup([look(I, x, "changes"), look(I, x, "keeps")])
                                return Tup([look(I, y, "changes"), look(I, y, "keeps"), look(I, x, "changes"), look(I, x, "keeps")])
                            ck.ob("evolve_sources, ecc %s, merger times %s, %s%s%s, %s" % (
                                ecc, "known" if known else "not yet known", "own times" if each else "one time",
                                ", sky position" if pos else "", ", weights" if w else "", "new collection" if new else "in place"),
                                I, impl, lambda: callm(I, "spec_source.evolved_copy" if new else "spec_source.evolved_in_place",
                                                       src=o(), t_evol=te))
