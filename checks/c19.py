"""C19: subsets and copies of a collection."""
from vfa.oblig import *
from checks.srcs import make, settings, tabled, meth, mask
from checks.c12 import SPECS as S0

TECHNIQUE = ("value-flow graphs of every attribute of a subset or copy compared with the same selection of the original's "
             "attribute; aliasing decided on the abstract heap by changing every held value of one collection and reading "
             "the other")
SPECS = S0 + ["source"]


def filled(I, ecc="any", pos=False, w=False, done=True, cls="source.Source"):
    o = make(I, cls, ecc=ecc, position=pos, weights=w, merged=True, t_merge=done, over=settings(I) if done else None)
    if done:
        tabled(I, o)
        I.setattr(o, "snr", q(I, "old_snr", "snr"))
        I.setattr(o, "max_snr_harmonic", ints(I, "old_loud", (N,)))
    return o


def run(ck):
    for cls in ("source.Source", "source.Stationary", "source.Evolving"):
        for ecc, pos in (("any", False), ("zero", True)):
            for w in (False, True):
                for done in (False, True):
                    for what in ("whole", "tail", "odd", "head", "ends", "inner", "back", "mask", "list", "bools", "one", "last", "array"):
                        I = ck.new(SPECS)
                        o = lambda: filled(I, ecc, pos, w, done, cls)
                        ix = {"mask": lambda: mask(I), "list": lambda: py(I, [0, 2]), "bools": lambda: py(I, [True, False, True]),
                              "one": lambda: py(I, 1), "last": lambda: py(I, -1), "array": lambda: ints(I, "ind", (H,), (0, 2)),
                              "whole": lambda: SliceV(NONE, NONE, NONE), "tail": lambda: SliceV(py(I, 1), NONE, NONE),
                              "odd": lambda: SliceV(NONE, NONE, py(I, 2)), "head": lambda: SliceV(NONE, py(I, -1), NONE),
                              "ends": lambda: SliceV(py(I, -2), NONE, NONE), "inner": lambda: SliceV(py(I, 1), py(I, -1), NONE),
                              "back": lambda: SliceV(NONE, NONE, py(I, -1))}[what]()
                        tag = "%s%s, ecc %s%s%s%s" % (cls[7:] + " ", what, ecc, ", sky position" if pos else "",
                                                      ", weights" if w else "", ", results known" if done else "")
                        ck.ob("subset " + tag, I,
                              lambda: callm(I, "spec_source.view", src=I.getitem(o(), ix)),
                              lambda: callm(I, "spec_source.subset", src=o(), ind=ix))
    # a subset shares nothing with the collection it came from
    for cls in ("source.Source", "source.Stationary", "source.Evolving"):
        for ecc, pos in (("any", False), ("zero", True)):
            for w in (False, True):
                for done in (False, True):
                    for what in ("whole", "mask", "list", "copy()"):
                        I = ck.new(SPECS)
                        o = lambda: filled(I, ecc, pos, w, done, cls)
                        ix = {"mask": lambda: mask(I), "list": lambda: py(I, [1, 0, 2]), "copy()": lambda: None,
                              "whole": lambda: SliceV(NONE, NONE, NONE)}[what]()
                        tag = "%s%s, ecc %s%s%s%s" % (cls[7:] + " ", what, ecc, ", sky position" if pos else "",
                                                      ", weights" if w else "", ", results known" if done else "")

                        def part(x):
                            return meth(I, x, "copy") if ix is None else I.getitem(x, ix)

                        def first():
                            x = o()
                            callm(I, "spec_source.tamper", src=part(x))
                            return callm(I, "spec_source.view", src=x)

                        def second():
                            x = o()
                            y = part(x)
                            callm(I, "spec_source.tamper", src=x)
                            return callm(I, "spec_source.view", src=y)
                        ck.ob("changing a subset leaves the original, " + tag, I, first,
                              lambda: callm(I, "spec_source.view", src=o()), raises="none")
                        ck.ob("changing the original leaves a subset, " + tag, I, second,
                              lambda: callm(I, "spec_source.view", src=part(o())), raises="none")
    from checks.c15 import named, dct
    from checks.c11 import FR
    for interp in (True, False):
        for ix in ("slice", "mask", "one"):
            I = ck.new(SPECS)
            d, own = named(I, "TianQin", ("t_obs",)), {"approximate_R": TRUEV}
            over = dict(interpolate_sc=py(I, interp))
            f = q(I, "f", "f", (M,), **FR)
            i = {"slice": SliceV(NONE, NONE, NONE), "mask": mask(I), "one": py(I, 0)}[ix]
            ck.ob("settings and noise curve of a subset are its own, %s%s" % (ix, ", curve interpolated" if interp else ""), I,
                  lambda: callm(I, "spec_source.part_follows", src=make(I, ecc="zero", over=dict(over, sc_params=dct(I, own))),
                                ind=i, d=dct(I, d), f=f),
                  lambda: callm(I, "spec_source.want_part", own=dct(I, own), d=dct(I, d), f=f, interpolate=py(I, interp)))
