"""C24: plots show the selected sources, their values and the noise of the settings in force."""
from vfa.oblig import *
from vfa import npmodel
from checks.srcs import make, meth, mask, opaque
from checks.c12 import SPECS as S0

TECHNIQUE = ("effect analysis: every call into the drawing libraries on every path is collected with its condition and the value-flow "
             "graphs of what it is given, and compared with the values of the selected sources and the noise curve of the settings")
SPECS = S0 + ["source", "visualisation"]
SIGN = {"ax.hist": ("x", "bins", "range", "density", "weights"), "ax.scatter": ("x", "y", "s", "c"), "ax.loglog": ("x", "y"),
        "ax.fill_between": ("x", "y1", "y2"), "ax.set_xlim": ("left", "right"), "ax.set_ylim": ("bottom", "top"),
        "ax.set_xlabel": ("xlabel",), "ax.set_ylabel": ("ylabel",), "ax.set_xscale": ("value",), "ax.set_yscale": ("value",),
        "seaborn.kdeplot": ("data",), "seaborn.ecdfplot": ("data",), "matplotlib.pyplot.show": ()}
DRAW = ("ax.hist", "ax.scatter", "ax.loglog", "ax.fill_between", "seaborn.kdeplot", "seaborn.ecdfplot")
OTHER = ("ax.plot", "ax.step", "ax.bar", "ax.stairs", "ax.semilogx", "ax.semilogy", "ax.errorbar", "ax.hist2d", "ax.hexbin",
         "ax.contour", "ax.contourf", "ax.fill", "ax.axvline", "ax.axhline")


class Unfollowed(Exception):
    pass


def figure(I):
    return dict(fig=Opq(t.sym("callable:fig", ()), "fig", None), ax=Opq(t.sym("callable:ax", ()), "ax", None))


def number(I, v):
    """the numbers drawn: the value of a quantity in its own unit"""
    v = I.res(v)
    if isinstance(v, Gate):
        return Gate(v.c, number(I, v.a), number(I, v.b))
    if isinstance(v, (Arr, Sc)) and v.unit is not None:
        return I.getattr(v, "value")
    if isinstance(v, (Lst, Tup)):
        its = v.items if isinstance(v, Tup) else I.iter_list(v)
        return Tup([number(I, x) for x in its]) if its is not None else v
    return v


def same(c, a, b):
    return a if c is t.TRUE else b if c is t.FALSE else Gate(c, a, b)


def calls(I, n, name):
    """the calls of one drawing function since event n: [(condition, axes, {argument: value})]"""
    out = []
    for e in I.events[n:]:
        if e.name != name:
            continue
        a = list(e.args)
        on = a.pop(0) if name.startswith("ax.") else None
        k = dict(zip(SIGN[name], a), **e.kwargs)
        if on is None:
            on = k.pop("ax", None)
        if name in ("ax.set_xlim", "ax.set_ylim") and len(a) == 1 and not e.kwargs:
            k = {"limits": Tup([I.getitem(a[0], py(I, 0)), I.getitem(a[0], py(I, 1))])}
        elif name in ("ax.set_xlim", "ax.set_ylim"):
            k = {"limits": Tup([x for _, x in sorted(k.items())])}
        out.append((e.pc, on, k))
    return out


def what(I, n, name, keys, given=None):
    """(drawn exactly once, on the right axes, values of the arguments) of the calls of one function, by path"""
    cs = calls(I, n, name)
    if not cs and name in DRAW and any(e.name in OTHER for e in I.events[n:]):
        raise Unfollowed("drawn by another function")
    out = Tup([py(I, 0)] + [NONE] * (len(keys) + 1))
    seen = []
    for pc, on, k in cs:
        count = 1 + sum(1 for p in seen if t.and_(p, pc) is not t.FALSE)
        seen.append(pc)
        place = "none"
        if isinstance(on, Opq):
            place = "given" if given is not None and on.term is given.term else "own" if on.tag == "ax" and given is None else "other"
        out = same(pc, Tup([py(I, count), Const(place)] + [number(I, k.get(x, NONE)) for x in keys]), out)
    return out


def drew(I, fn, wanted, given=None):
    """run fn and report what was drawn; wanted: {function: argument names}"""
    n, lost = len(I.events), I.lost
    fn()
    if I.lost != lost:
        raise Unfollowed("drawn by something not understood")
    return Tup([what(I, n, name, keys, given) for name, keys in wanted])


def once(I, given, *vals):
    return Tup([py(I, 1), Const("given" if given is not None else "own")] + [number(I, v) for v in vals])


def never(I, keys):
    return Tup([py(I, 0)] + [NONE] * (len(keys) + 1))


HIST = ("x", "weights", "bins", "density", "color")
KDE = ("x", "y", "weights", "log_scale", "gridsize", "levels", "thresh", "color")
ECDF = ("x", "weights", "log_scale", "stat", "color")
SCAT = ("x", "y", "s", "color")


def psd(I, f, args, kwargs):
    """an unknown noise curve of the frequency, for everything else it is told"""
    v = I.bind(f, args, kwargs)
    v.pop("kwargs", None)
    x = I.res(v.pop("f"))
    rest = tuple((k, I.key(y)) for k, y in sorted(v.items()))
    return npmodel.ew(I, lambda e: t.app("noise", t._bool2num(e), rest, sign="p"), [x], unit=un.TABLE["Hz"] ** -1)


def one_dim(ck):
    for kind in ("hist", "kde", "ecdf"):
        for log in (False, True):
            for wts in (False, True):
                for own in (True, False):
                    for unit in ("mass", "ecc"):
                        for extra in (False, True):
                            if extra and (own or unit == "ecc"):
                                continue
                            I = ck.new(SPECS)
                            g = figure(I) if not own else {}
                            x = lambda: q(I, "x", unit)
                            w = lambda: q(I, "w", "weight") if wts else NONE
                            kw = dict(disttype=Const(kind), log_scale=py(I, log), **g)
                            opt = {}
                            if extra:
                                opt = {"hist": dict(bins=py(I, 20), density=FALSEV), "kde": dict(gridsize=py(I, 50), levels=py(I, 3)),
                                       "ecdf": dict(stat=Const("count"))}[kind]
                                opt["color"] = Const("red")
                            kw.update(opt)
                            if wts:
                                kw["weights"] = None
                            want = [("ax.hist", HIST), ("seaborn.kdeplot", KDE), ("seaborn.ecdfplot", ECDF), ("ax.scatter", SCAT)]

                            def impl():
                                k = dict(kw)
                                if wts:
                                    k["weights"] = w()
                                return drew(I, lambda: callm(I, "visualisation.plot_1D_dist", x(), **k), want, g.get("ax"))

                            def ref():
                                o = lambda n, d: opt.get(n, d)
                                lg = py(I, log)
                                full = {"hist": (callm(I, "spec_visualisation.histogram_values", x=x(), log=lg), w(), o("bins", Const("fd")),
                                                 o("density", TRUEV), o("color", NONE)),
                                        "kde": (x(), NONE, w(), lg, o("gridsize", py(I, 200)), o("levels", NONE), NONE, o("color", NONE)),
                                        "ecdf": (x(), w(), lg, o("stat", Const("proportion")), o("color", NONE))}[kind]
                                at = {"hist": 0, "kde": 1, "ecdf": 2}[kind]
                                return Tup([once(I, g.get("ax"), *full) if i == at else never(I, keys) for i, (_, keys) in enumerate(want)])
                            ck.ob("plot_1D_dist %s%s%s, %s axes, %s%s" % (kind, ", log" if log else "", ", weights" if wts else "",
                                                                      "own" if own else "given", unit, ", options" if extra else ""),
                                  I, impl, ref)


def two_dim(ck):
    for kind in ("scatter", "kde"):
        for log in (False, True, (True, False), (False, True)):
            for wts in (False, True):
                for own in (True, False):
                    I = ck.new(SPECS)
                    g = figure(I) if not own else {}
                    x, y = (lambda: q(I, "x", "f")), (lambda: q(I, "y", "mass"))
                    w = lambda: q(I, "w", "weight") if wts else NONE
                    lx, ly = log if isinstance(log, tuple) else (log, log)
                    size = scal(I, "size", "weight")
                    kw = dict(disttype=Const(kind), log_scale=Tup([py(I, a) for a in log]) if isinstance(log, tuple) else py(I, log), **g)
                    if not own:
                        kw["scatter_s"] = size
                    want = [("ax.scatter", SCAT), ("seaborn.kdeplot", KDE), ("ax.set_xscale", ("value",)), ("ax.set_yscale", ("value",)),
                            ("ax.hist", HIST)]
                    if kind == "kde":
                        want = [x for x in want if x[0] not in ("ax.set_xscale", "ax.set_yscale")]

                    def impl():
                        k = dict(kw)
                        if wts:
                            k["weights"] = w()
                        return drew(I, lambda: callm(I, "visualisation.plot_2D_dist", x(), y(), **k), want, g.get("ax"))

                    def ref():
                        s = size if not own else py(I, 20)
                        if wts:
                            s = callm(I, "spec_visualisation.times", a=w(), b=s)
                        both = Tup([py(I, lx), py(I, ly)])
                        full = {"ax.scatter": (x(), y(), s, NONE), "seaborn.kdeplot":
                                (x(), y(), w(), both, py(I, 200), py(I, 10), fl(0.02), NONE)}
                        got = {"scatter": ["ax.scatter"] + ["ax.set_xscale"] * lx + ["ax.set_yscale"] * ly, "kde": ["seaborn.kdeplot"]}[kind]
                        return Tup([once(I, g.get("ax"), *full.get(n, (Const("log"),))) if n in got else never(I, keys) for n, keys in want])
                    ck.ob("plot_2D_dist %s, log %s%s, %s axes" % (kind, log, ", weights" if wts else "", "own" if own else "given"), I, impl, ref)


def decorations(ck):
    """labels, limits, showing and the returned figure"""
    lim = lambda I, n: Tup([scal(I, n + " low", "weight"), scal(I, n + " high", "weight")])
    for fn, kinds in (("plot_1D_dist", ("hist", "kde")), ("plot_2D_dist", ("scatter", "kde"))):
        for kind in kinds:
            for log in (False, True):
                for show in (False, True):
                    for part in (("xlim", "xlabel"), ("ylim", "ylabel"), ()):
                        I = ck.new(SPECS)
                        g = figure(I)
                        kw = dict(disttype=Const(kind), log_scale=py(I, log), show=py(I, show), x=q(I, "x", "weight"), **g)
                        if fn == "plot_2D_dist":
                            kw["y"] = q(I, "y", "weight")
                        if "xlim" in part:
                            kw.update(xlim=lim(I, "x"), xlabel=Const("an x label"))
                        if "ylim" in part:
                            kw.update(ylim=lim(I, "y"), ylabel=Const("a y label"))
                        want = [("ax.set_xlim", ("limits",)), ("ax.set_ylim", ("limits",)), ("ax.set_xlabel", ("xlabel",)),
                                ("ax.set_ylabel", ("ylabel",))]

                        def impl():
                            n = len(I.events)
                            r = callm(I, "visualisation." + fn, **kw)
                            shown = len([e for e in I.events[n:] if e.name == "matplotlib.pyplot.show"])
                            return Tup([Tup([what(I, n, a, k, g["ax"]) for a, k in want]), r, py(I, shown)])

                        def ref():
                            def one(name, keys):
                                p = {"ax.set_xlim": "xlim", "ax.set_ylim": "ylim", "ax.set_xlabel": "xlabel", "ax.set_ylabel": "ylabel"}[name]
                                if p not in kw:
                                    return never(I, keys)
                                v = kw[p]
                                if p == "xlim" and kind == "hist" and log:
                                    v = callm(I, "spec_visualisation.histogram_limits", lim=v)
                                return once(I, g["ax"], v)
                            return Tup([Tup([one(a, k) for a, k in want]), Tup([g["fig"], g["ax"]]), py(I, int(show))])
                        ck.ob("%s %s, log %s, show %s, %s" % (fn, kind, log, show, " ".join(part) or "nothing"), I, impl, ref)


def given_settings(I, n):
    from checks.c11 import custom
    from checks.c15 import dct  # noqa
    base = dict(t_obs=scal(I, "t_obs", "time", dom=(1e7, 1e9)), L=scal(I, "L", "a", dom=(1e9, 1e10)), approximate_R=TRUEV)
    if n == "default":
        return {}
    if n == "custom":
        return dict(base, instrument=Const("custom"), custom_psd=custom(I), confusion_noise=NONE)
    return dict(base, instrument=Const(n), confusion_noise=Const("huang20"))


def curve(ck):
    for inst in ("default", "LISA", "TianQin", "DECIGO", "custom"):
        for yq in ("ASD", "h_c"):
            for fill in (True, False):
                for rng in (True, False):
                    I = ck.new(SPECS)
                    I.stubs["legwork.psd.power_spectral_density"] = psd
                    g = figure(I)
                    s = given_settings(I, inst)
                    want = [("ax.loglog", ("x", "y")), ("ax.fill_between", ("x", "y1", "y2"))]

                    def impl():
                        k = dict(s, y_quantity=Const(yq), fill=py(I, fill), show=FALSEV, **g)
                        if rng:
                            k["frequency_range"] = q(I, "f", "f", (M,), dom=(1e-6, 1))
                        return drew(I, lambda: callm(I, "visualisation.plot_sensitivity_curve", **k), want, g["ax"])

                    def ref():
                        f = q(I, "f", "f", (M,), dom=(1e-6, 1)) if rng else callm(I, "spec_visualisation.frequencies")
                        p = I.call(I.get("psd.power_spectral_density"), [f], dict(s))
                        y = callm(I, "spec_visualisation.amplitude", f=f, noise=p, characteristic=py(I, yq == "h_c"))
                        return Tup([once(I, g["ax"], f, y), once(I, g["ax"], f, callm(I, "spec_visualisation.zeros", y=y), y) if fill
                                    else never(I, want[1][1])])
                    ck.ob("plot_sensitivity_curve %s, %s%s%s" % (inst, yq, ", filled" if fill else "", "" if rng else ", default range"),
                          I, impl, ref)
    I = ck.new(SPECS)
    ck.ob("plot_sensitivity_curve refuses other quantities", I,
          lambda: callm(I, "visualisation.plot_sensitivity_curve", y_quantity=Const("strain"), show=FALSEV, **figure(I)),
          lambda: callm(I, "spec_visualisation.refuse"))


def on_curve(ck):
    for inst in ("default", "LISA", "TianQin", "custom"):
        for yq in (None, "ASD", "h_c"):
            for own in (True, False):
                for wts in (True, False):
                    for cut in (False, True):
                        I = ck.new(SPECS)
                        I.stubs["legwork.psd.power_spectral_density"] = psd
                        g = figure(I) if not own else {}
                        s = given_settings(I, inst)
                        f, snr = (lambda: q(I, "f_dom", "f", dom=(1e-5, 1e-1))), (lambda: q(I, "snr", "snr"))
                        w = lambda: q(I, "w", "weight") if wts else NONE
                        vis = {} if yq is None else {"y_quantity": Const(yq)}
                        want = [("ax.scatter", ("x", "y", "s")), ("ax.loglog", ("x", "y"))]

                        def impl():
                            k = dict(s, show=FALSEV, sc_vis_settings=I.new_dict(dict(vis)), **g)
                            if wts:
                                k["weights"] = w()
                            if cut:
                                k["snr_cutoff"] = scal(I, "cut", "snr")
                            return drew(I, lambda: callm(I, "visualisation.plot_sources_on_sc", f_dom=f(), snr=snr(), **k), want, g.get("ax"))

                        def ref():
                            full = dict(DEFAULT(I), **s)
                            c = scal(I, "cut", "snr") if cut else py(I, 0)
                            loud = callm(I, "spec_visualisation.above", snr=snr(), cutoff=c)
                            p = lambda f: I.call(I.get("psd.power_spectral_density"), [f], dict(full))
                            ch = py(I, yq == "h_c")
                            fs = I.getitem(f(), loud)
                            pts = callm(I, "spec_visualisation.points", f=fs, snr=I.getitem(snr(), loud), noise=p(fs),
                                        w=I.getitem(w(), loud) if wts else NONE, characteristic=ch)
                            r = I.call(I.getattr(loud, "any"), [], {})
                            c = I.truth(r)
                            fr = callm(I, "spec_visualisation.frequencies")
                            y = callm(I, "spec_visualisation.amplitude", f=fr, noise=p(fr), characteristic=ch)
                            return Tup([same(c, once(I, g.get("ax"), *pts.items), never(I, want[0][1])),
                                        once(I, None, fr, y) if own else never(I, want[1][1])])
                        ck.ob("plot_sources_on_sc %s, %s, %s axes%s%s" % (inst, yq, "own" if own else "given", ", weights" if wts else "",
                                                                       ", cutoff" if cut else ""), I, impl, ref)


def DEFAULT(I):
    return dict(t_obs=Const("auto"), instrument=Const("LISA"), custom_psd=NONE, L=Const("auto"), approximate_R=FALSEV,
                confusion_noise=Const("auto"))


VARS = ("m_1", "m_2", "m_c", "ecc", "dist", "f_orb", "f_GW", "a", "snr")


def collection(ck):
    def coll(I, snr=True, wts=True):
        o = make(I, merged=True, weights=wts)
        if snr:
            I.setattr(o, "snr", q(I, "the snr", "snr"))
            I.setattr(o, "max_snr_harmonic", ints(I, "loudest", (N,)))
        return o
    pairs = [(x, None) for x in VARS] + [(x, VARS[(i * 4 + 3) % 9]) for i, x in enumerate(VARS)]
    for x, y in pairs:
        for wts in (True, False):
            for keep in (False, True):
                for sel in (False, True):
                    for kind in ((("hist", "kde", "ecdf") if x == "m_1" else ("hist",)) if y is None else ("scatter",)):
                        for log in ((False, True) if x in ("m_1", "ecc") else (False,)):
                            I = ck.new(SPECS)
                            want = [("ax.hist", ("x", "weights")), ("seaborn.kdeplot", ("x", "weights", "log_scale")),
                                    ("seaborn.ecdfplot", ("x", "weights", "log_scale")), ("ax.scatter", ("x", "y", "s")),
                                    ("ax.set_xscale", ("value",)), ("ax.set_yscale", ("value",))]

                            def impl():
                                k = dict(xstr=Const(x), show=FALSEV, xlabel=Const("x"), ylabel=Const("y"), log_scale=py(I, log))
                                if y:
                                    k["ystr"] = Const(y)
                                if kind not in ("hist", "scatter"):
                                    k["disttype"] = Const(kind)
                                if keep:
                                    k["exclude_merged_sources"] = FALSEV
                                if sel:
                                    k["which_sources"] = mask(I)
                                o = coll(I, wts=wts)
                                return drew(I, lambda: meth(I, o, "plot_source_variables", **k), want)

                            def ref():
                                o = coll(I, wts=wts)
                                m = callm(I, "spec_visualisation.shown", src=o, which=mask(I) if sel else NONE, merged_too=py(I, keep))
                                v = lambda n: callm(I, "spec_visualisation.variable", src=o, var=Const(n), m=m)
                                w = callm(I, "spec_visualisation.weights_of", src=o, m=m)
                                lg = py(I, log)
                                out = {}
                                if kind == "hist":
                                    out["ax.hist"] = (callm(I, "spec_visualisation.histogram_values", x=v(x), log=lg), w)
                                elif kind == "scatter":
                                    out["ax.scatter"] = (v(x), v(y), callm(I, "spec_visualisation.sizes", w=w))
                                    if log:
                                        out["ax.set_xscale"] = out["ax.set_yscale"] = (Const("log"),)
                                else:
                                    out["seaborn.%splot" % kind] = (v(x), w, lg)
                                return Tup([once(I, None, *out[n]) if n in out else never(I, k) for n, k in want])
                            ck.ob("plot_source_variables %s%s, %s%s%s%s%s" % (x, " against " + y if y else "", kind, ", log" if log else "",
                                  ", weights" if wts else "", ", merged too" if keep else "", ", selection" if sel else ""), I, impl, ref)
    for x, y in (("mass", None), ("m_1", "f"), ("snr", None), ("m_1", "snr")):
        I = ck.new(SPECS)
        ck.ob("plot_source_variables refuses %s against %s when unknown" % (x, y), I,
              lambda: meth(I, coll(I, snr=False), "plot_source_variables", Const(x), ystr=Const(y) if y else NONE, show=FALSEV),
              lambda: callm(I, "spec_visualisation.refuse"))
    for inst in ("default", "LISA", "TianQin", "custom"):
        for ecc in ("any", "zero"):
            for wts in (True, False):
                for cut in (False, True):
                    for own in (True, False):
                        I = ck.new(SPECS)
                        I.stubs["legwork.psd.power_spectral_density"] = psd
                        from checks.c14 import stationary
                        I.stubs["legwork.evol.determine_stationarity"] = stationary
                        I.stubs["spec_evol.stationary"] = stationary
                        g = figure(I) if not own else {}
                        s = given_settings(I, inst)

                        def build():
                            o = make(I, merged=True, weights=wts, ecc=ecc, over=dict(sc_params=I.new_dict(dict(s))))
                            I.setattr(o, "snr", q(I, "the snr", "snr"))
                            I.setattr(o, "max_snr_harmonic", ints(I, "loudest", (N,)))
                            return o
                        want = [("ax.scatter", ("x", "y", "s")), ("ax.loglog", ("x", "y"))]
                        cutoff = lambda: scal(I, "cut", "snr") if cut else py(I, 0)

                        def impl():
                            o = build()
                            k = dict(show=FALSEV, **g)
                            if cut:
                                k["snr_cutoff"] = cutoff()
                            return drew(I, lambda: meth(I, o, "plot_sources_on_sc", **k), want, g.get("ax"))

                        def ref():
                            o = build()
                            m = callm(I, "spec_visualisation.on_curve", src=o, cutoff=cutoff())
                            fs = callm(I, "spec_visualisation.dominant", src=o, m=m)
                            full = dict(DEFAULT(I), **s)
                            p = lambda f: I.call(I.get("psd.power_spectral_density"), [f], dict(full))
                            pts = callm(I, "spec_visualisation.points", f=fs, snr=I.getitem(I.getattr(o, "snr"), m), noise=p(fs),
                                        w=callm(I, "spec_visualisation.weights_of", src=o, m=m), characteristic=FALSEV)
                            c = I.truth(I.call(I.getattr(m, "any"), [], {}))
                            fr = callm(I, "spec_visualisation.frequencies")
                            y = callm(I, "spec_visualisation.amplitude", f=fr, noise=p(fr), characteristic=FALSEV)
                            return Tup([same(c, once(I, g.get("ax"), *pts.items), never(I, want[0][1])),
                                        same(c, once(I, None, fr, y), never(I, want[1][1])) if own else never(I, want[1][1])])
                        ck.ob("collection's plot_sources_on_sc %s, ecc %s, %s axes%s%s" % (inst, ecc, "own" if own else "given",
                              ", weights" if wts else "", ", cutoff" if cut else ""), I, impl, ref)


def warned(I, fn):
    """(a warning about circular sources is given, one about eccentric sources)"""
    n = len(I.events)
    fn()
    out, text = {"circular": t.FALSE, "eccentric": t.FALSE}, lambda e: " ".join(str(I.key(a)) for a in e.args)
    for e in I.events[n:]:
        if e.name.endswith(".warning"):
            kinds = [k for k in out if k in text(e)]
            if len(kinds) != 1:
                raise Unfollowed("warning about something else")
            out[kinds[0]] = t.or_(out[kinds[0]], e.pc)
    return Tup([Sc(c, None, "bool") for c in out.values()])


def left_out(ck):
    from checks.c14 import stationary
    for ecc in ("any", "zero"):
        for cut in (False, True):
            I = ck.new(SPECS)
            I.stubs["legwork.psd.power_spectral_density"] = psd
            I.stubs["legwork.evol.determine_stationarity"] = stationary
            I.stubs["spec_evol.stationary"] = stationary

            def build():
                o = make(I, merged=True, ecc=ecc)
                I.setattr(o, "snr", q(I, "the snr", "snr"))
                I.setattr(o, "max_snr_harmonic", ints(I, "loudest", (N,)))
                return o
            cutoff = scal(I, "cut", "snr") if cut else py(I, 0)
            ck.ob("warned about the evolving sources left out, ecc %s%s" % (ecc, ", cutoff" if cut else ""), I,
                  lambda: warned(I, lambda: meth(I, build(), "plot_sources_on_sc", show=FALSEV, snr_cutoff=cutoff, **figure(I))),
                  lambda: callm(I, "spec_visualisation.left_out", src=build(), cutoff=cutoff))


def run(ck):
    left_out(ck)
    one_dim(ck)
    two_dim(ck)
    decorations(ck)
    curve(ck)
    on_curve(ck)
    collection(ck)
