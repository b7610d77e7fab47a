"""C16: the collection's settings as a dictionary."""
from vfa.oblig import *
from checks.srcs import make, meth, mask
from checks.c12 import SPECS as S0
from checks.c11 import FR, custom, noise
from checks.c15 import named, dct

TECHNIQUE = ("every dictionary operation on the settings (item assignment, update in three forms, in-place merge, setdefault, "
             "replacement, removal in five forms, copying) interpreted abstractly; resulting keys, values, refusals and noise "
             "curve compared, as value-flow graphs, with those required")
SPECS = S0 + ["source"]
WAYS = [("assign_key", "set"), ("update_dict", "set"), ("update_keywords", "set"), ("update_pairs", "set"), ("merge_in", "set"),
        ("default_in", "default"), ("replace_all", "set"), ("delete_key", "remove"), ("pop_key", "remove"),
        ("pop_default", "remove"), ("pop_any", "remove"), ("clear_all", "remove")]


def run(ck):
    f = lambda I: q(I, "f", "f", (M,), **FR)
    for interp in (True, False):
        for inst, which in (("TianQin", ()), ("LISA", ("t_obs", "L")), ("DECIGO", ("None",)), ("custom", ("L", "R", "noise")),
                            ("default", ("R",)), ("bad", ())):
            for way, kind in WAYS:
                I = ck.new(SPECS)
                d = {"foo": py(I, 1)} if inst == "bad" else named(I, inst, which)
                d = {k: d[k] for k in sorted(d)}                # a custom curve before the instrument that needs it
                o = lambda: make(I, ecc="zero", over=dict(interpolate_sc=py(I, interp)))
                ck.ob("%s with %s %s%s" % (way, inst, "+".join(which), ", curve interpolated" if interp else ""), I,
                      lambda: callm(I, "spec_source.tried", change=I.get("spec_source." + way), src=o(), d=dct(I, d), f=f(I)),
                      lambda: callm(I, "spec_source.want_change", how=Const(kind), d=dct(I, d), f=f(I), interpolate=py(I, interp)))
            if inst == "bad":
                continue
            I = ck.new(SPECS)
            d = named(I, inst, which)
            d = {k: d[k] for k in sorted(d)}
            over = dict(interpolate_sc=py(I, interp))
            tag = "%s %s%s" % (inst, "+".join(which), ", curve interpolated" if interp else "")
            ck.ob("copies of settings, " + tag, I,
                  lambda: callm(I, "spec_source.copied", src=make(I, ecc="zero", over=dict(over, sc_params=dct(I, d))), d=dct(I, d), f=f(I)),
                  lambda: callm(I, "spec_source.want_copied", d=dct(I, d), f=f(I)))
            for ix in (SliceV(NONE, NONE, NONE), mask(I), py(I, 0)):
                def part():
                    x = make(I, ecc="zero", over=dict(over, sc_params=dct(I, {"approximate_R": TRUEV})))
                    return callm(I, "spec_source.part_follows", src=x, ind=ix, d=dct(I, d), f=f(I))
                ck.ob("a subset's settings are its own, %s, %s" % (tag, type(ix).__name__), I, part, lambda: callm(
                    I, "spec_source.want_part", own=dct(I, {"approximate_R": TRUEV}), d=dct(I, d), f=f(I), interpolate=py(I, interp)))

            def shared():
                s = dct(I, {"approximate_R": TRUEV})
                x = make(I, ecc="zero", over=dict(over, sc_params=s))
                y = make(I, ecc="zero", over=dict(over, sc_params=s))
                return callm(I, "spec_source.shared_default", first=x, second=y, d=dct(I, d), f=f(I))
            ck.ob("collections made from one dictionary, " + tag, I, shared, lambda: callm(
                I, "spec_source.made", f=f(I), interpolate=py(I, interp), given=dct(I, {"approximate_R": TRUEV})))

            def evolved():
                x = make(I, ecc="zero", t_merge=True, over=dict(over, sc_params=dct(I, {"approximate_R": TRUEV})))
                return callm(I, "spec_source.evolved_follows", src=x, t=scal(I, "t_evol", "time"), d=dct(I, d), f=f(I))
            ck.ob("settings of evolved copies are their own, " + tag, I, evolved, lambda: callm(
                I, "spec_source.want_part", own=dct(I, {"approximate_R": TRUEV}), d=dct(I, d), f=f(I), interpolate=py(I, interp)))
    # one setting at a time, from settings that are not the defaults
    starts = [("LISA", ("t_obs", "L", "R", "robson19")), ("TianQin", ("noise", "t_obs")), ("DECIGO", ("karnesis21",)),
              ("custom", ("L", "huang20"))]
    for i, w in starts:
        for key, tag, val in singles():
            for way, how in [("assign_key", "set"), ("update_dict", "set"), ("update_keywords", "set"), ("update_pairs", "set"),
                             ("merge_in", "set"), ("default_in", "keep"), ("replace_all", "replace")]:
                for interp in (True, False):
                    if not interp and way not in ("assign_key", "update_dict"):
                        continue
                    if (i, key, tag) in (("custom", "custom_psd", "None"), ("custom", "L", "other")) and interp:
                        continue            # a custom curve without its function; an equality the opaque function hides
                    I = ck.new(SPECS)
                    own = named(I, i, w)
                    d = {key: val(I)}
                    over = dict(interpolate_sc=py(I, interp), sc_params=dct(I, {k: own[k] for k in sorted(own)}))
                    ck.ob("%s: only %s = %s, from %s %s%s" % (way, key, tag, i, "+".join(w), ", curve interpolated" if interp else ""), I,
                          lambda: callm(I, "spec_source.tried", change=I.get("spec_source." + way), src=make(I, ecc="zero", over=over),
                                        d=dct(I, d), f=f(I)),
                          lambda: callm(I, "spec_source.want_single", how=Const(how), own=dct(I, own), d=dct(I, d), f=f(I),
                                        interpolate=py(I, interp)))
    # one setting that changes among others that are given as they are, in every order
    new = {key: val for key, tag, val in singles() if tag in ("TianQin", "other", "True", "robson19")}
    keys = ("instrument", "t_obs", "L", "approximate_R", "confusion_noise")
    for key in keys:
        for other in [(k,) for k in keys if k != key] + [tuple(k for k in keys if k != key)]:
            for first in (True, False):
                for way in ("update_dict", "update_keywords", "update_pairs", "merge_in", "replace_all"):
                    if way != "update_dict" and len(other) == 1 and ck.tier == "quick" and other[0] != "instrument":
                        continue
                    I = ck.new(SPECS)
                    own = named(I, "LISA", ("t_obs", "L", "noise"))
                    own = {k: own.get(k, FALSEV) for k in keys}
                    same = {k: own[k] for k in other}
                    d = {key: new[key](I), **same} if first else {**same, key: new[key](I)}
                    over = dict(interpolate_sc=TRUEV, sc_params=dct(I, own))
                    ck.ob("%s: %s changes, %s given as %s, %s" % (way, key, "+".join(other), "they are" if len(other) > 1 else "it is",
                                                                 "changed first" if first else "changed last"), I,
                          lambda: callm(I, "spec_source.tried", change=I.get("spec_source." + way), src=make(I, ecc="zero", over=over),
                                        d=dct(I, d), f=f(I)),
                          lambda: callm(I, "spec_source.want_single", how=Const("replace" if way == "replace_all" else "set"),
                                        own=dct(I, own), d=dct(I, d), f=f(I), interpolate=TRUEV))


def singles():
    yield from (("instrument", x, lambda I, x=x: py(I, x)) for x in ("LISA", "TianQin", "DECIGO"))
    yield "custom_psd", "None", lambda I: NONE
    yield "custom_psd", "another function", lambda I: custom(I, "another psd")
    yield "t_obs", "auto", lambda I: py(I, "auto")
    yield "t_obs", "other", lambda I: scal(I, "t_other", "time", dom=(1e6, 1e9))
    yield "L", "auto", lambda I: py(I, "auto")
    yield "L", "other", lambda I: scal(I, "L_other", "a", u="m", dom=(1e8, 1e10))
    yield "approximate_R", "False", lambda I: FALSEV
    yield "approximate_R", "True", lambda I: TRUEV
    yield from (("confusion_noise", str(x), lambda I, x=x: py(I, x)) for x in (None, "auto", "robson19", "karnesis21"))
    yield "confusion_noise", "another function", lambda I: noise(I, "another noise")
