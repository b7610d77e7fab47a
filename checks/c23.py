"""C23: calculations change neither what they are given nor what they gave before, and do not depend on earlier calls."""
from vfa.oblig import *
from checks.srcs import make, meth, mask, args
from checks.c15 import dct
from checks.c12 import SPECS as S0, body, ways

TECHNIQUE = ("effect analysis on the abstract heap: the arrays, lists and tables reachable from every argument and from every earlier "
             "result are compared before and after each call, and the value flow of a call after another call with the one of the "
             "call alone")
SPECS = S0 + ["source"]
T = t.axis_sym("T", 2)


def cases(I):
    """public function -> arguments"""
    m = lambda n, ax=(N,): q(I, n, "mass", ax)
    e = lambda n="ecc", ax=(N,): q(I, n, "ecc", ax, dom=(0.01, 0.9))
    a = lambda n="a", ax=(N,): q(I, n, "a", ax)
    f = lambda n="f", ax=(N,): q(I, n, "f", ax)
    d = lambda n="dist": q(I, n, "dist")
    g = lambda n, ax=(N,): q(I, n, "angle", ax)
    w = lambda n="f", ax=(M,): q(I, n, "f", ax, dom=(1e-9, 1e3))
    tm = lambda n="t": scal(I, n, "time", dom=(1e6, 1e9))
    steps = lambda n="times", ax=(N, T): q(I, n, "time", ax)
    mm = lambda: dict(m_1=m("m_1"), m_2=m("m_2"))
    per = dict(position=sky(I), polarisation=g("pol"), inclination=g("inc"))
    out = [
        ("utils.chirp_mass", mm()), ("utils.peters_g", dict(n=ints(I, "n", (N,)), e=e())), ("utils.peters_f", dict(e=e())),
        ("utils.get_a_from_f_orb", dict(f_orb=f(), **mm())), ("utils.get_f_orb_from_a", dict(a=a(), **mm())),
        ("utils.beta", mm()), ("utils.c_0", dict(a_i=a(), ecc_i=e())), ("utils.get_a_from_ecc", dict(ecc=e(), c_0=a("c_0"))),
        ("utils.fn_dot", dict(m_c=m("m_c"), f_orb=f(), e=e(), n=ints(I, "n", (N,)))),
        ("utils.ensure_array", None),
        ("utils.D_plus_squared", dict(theta=g("theta"), phi=g("phi"))),
        ("utils.D_cross_squared", dict(theta=g("theta"), phi=g("phi"))),
        ("utils.D_plus_D_cross", dict(theta=g("theta"), phi=g("phi"))),
        ("utils.F_plus_squared", dict(theta=g("theta"), phi=g("phi"), psi=g("psi"))),
        ("utils.F_cross_squared", dict(theta=g("theta"), phi=g("phi"), psi=g("psi"))),
        ("strain.amplitude_modulation", per),
    ]
    for n in ("strain.h_0_n", "strain.h_c_n"):
        out.append((n, dict(m_c=m("m_c"), f_orb=f(), ecc=e(), n=ints(I, "n", (H,)), dist=d())))
        out.append((n, dict(m_c=m("m_c"), f_orb=f("f", (N, T)), ecc=e("ecc", (N, T)), n=ints(I, "n", (H,)), dist=d())))
        out.append((n, dict(m_c=m("m_c"), f_orb=f(), ecc=I.mkarr((N,), t.ZERO), n=py(I, [1, 2, 3]), dist=d(), **per)))
        out.append((n, dict(m_c=m("m_c"), f_orb=f(), ecc=e(), n=integer("n"), dist=d(), interpolated_g=ufun(I, "signed g"))))
    for n in ("get_confusion_noise_robson19", "get_confusion_noise_huang20", "get_confusion_noise_karnesis21"):
        out.append(("psd." + n, dict(f=w(), t_obs=tm())))
    out += [
        ("psd.get_confusion_noise_thiele21", dict(f=w())),
        ("psd.approximate_response_function", dict(f=w(), fstar=scal(I, "fstar", "f", dom=(0.01, 0.03)))),
        ("psd.load_response_function", dict(f=w())),
        ("psd.lisa_psd", dict(f=w(), t_obs=tm())),
        ("psd.lisa_psd", dict(f=w(), t_obs=tm(), L=scal(I, "L", "a", dom=(1e9, 1e10)), approximate_R=TRUEV, confusion_noise=NONE)),
        ("psd.tianqin_psd", dict(f=w(), t_obs=tm())), ("psd.decigo_psd", dict(f=w(), t_obs=tm())),
        ("psd.power_spectral_density", dict(f=w())), ("psd.power_spectral_density", dict(f=w(), t_obs=tm(), instrument=Const("TianQin"))),
        ("psd.decigo_psd", dict(f=w(), t_obs=tm(), confusion_noise=NONE, f_low=scal(I, "f_low", "f", dom=(1e-4, 1e-3)),
                                f_high=scal(I, "f_high", "f", dom=(1e-2, 1e-1)))),
        ("psd.power_spectral_density", dict(f=w(), t_obs=tm(), L=scal(I, "L", "a", dom=(1e9, 1e10)), instrument=Const("TianQin"))),
        ("psd.get_confusion_noise", dict(f=w(), t_obs=tm(), model=Const("huang20"))),
        ("psd.get_confusion_noise", dict(f=w(), model=Const("robson19"))),
        ("evol.get_t_merge_circ", dict(beta=q(I, "b", "beta"), a_i=a())),
        ("evol.get_t_merge_circ", dict(f_orb_i=f(), **mm())),
        ("evol.get_t_merge_ecc", dict(beta=q(I, "b", "beta"), a_i=a(), ecc_i=e())),
        ("evol.evol_circ", dict(beta=q(I, "b", "beta"), a_i=a(), timesteps=steps(), output_vars=Const("a"))),
        ("evol.evol_ecc", dict(beta=q(I, "b", "beta"), a_i=a(), ecc_i=e(), timesteps=steps(), output_vars=py(I, ["ecc", "a"]))),
        ("evol.evol_ecc", dict(timesteps=steps(), ecc_i=e(), f_orb_i=f(), t_before=tm("t_before"), **mm())),
        ("evol.evolve_f_orb_circ", dict(f_orb_i=f(), m_c=m("m_c"), t_evol=tm(), merge_f=scal(I, "merge_f", "f", dom=(1e-1, 1e2)))),
        ("evol.get_t_merge_circ", dict(a_i=a(), **mm())), ("evol.t_merge_mandel_fit", dict(ecc_i=e())),
        ("evol.get_t_merge_ecc", dict(ecc_i=e(), a_i=a(), **mm())),
        ("evol.get_t_merge_ecc", dict(ecc_i=e(), f_orb_i=f(), exact=FALSEV, **mm())),
        ("evol.create_timesteps_array", dict(a_i=a(), beta=q(I, "b", "beta") if "beta" in RANGES else None, timesteps=steps())),
        ("evol.evol_circ", dict(timesteps=steps(), f_orb_i=f(), **mm())),
        ("evol.evol_circ", dict(timesteps=steps("times", (T,)), f_orb_i=f(), output_vars=py(I, ["timesteps", "a"]), **mm())),
        ("evol.evol_circ", dict(t_evol=q(I, "t", "time"), a_i=a(), n_step=integer("n_step", (2, 5)), **mm())),
        ("evol.evol_ecc", dict(timesteps=steps(), ecc_i=e(), f_orb_i=f(), **mm())),
        ("evol.evol_ecc", dict(timesteps=steps("times", (T,)), ecc_i=e(), f_orb_i=f(), output_vars=py(I, ["timesteps", "ecc"]), **mm())),
        ("evol.evol_ecc", dict(timesteps=steps(), ecc_i=e(), a_i=a(), avoid_merger=FALSEV, **mm())),
        ("evol.evol_ecc", dict(timesteps=steps(), ecc_i=e(), f_orb_i=f(), t_merge=q(I, "t_merge", "time"), **mm())),
        ("evol.evol_ecc", dict(t_evol=q(I, "t", "time"), n_step=integer("n_step", (2, 5)), ecc_i=e(), f_orb_i=f(), **mm())),
        ("evol.evolve_f_orb_circ", dict(f_orb_i=f(), m_c=m("m_c"), t_evol=q(I, "t", "time"), ecc_i=e())),
        ("evol.determine_stationarity", dict(f_orb_i=f(), t_evol=q(I, "t", "time"), ecc_i=e(), m_c=m("m_c"))),
        ("evol.determine_stationarity", dict(f_orb_i=f(), t_evol=tm(), ecc_i=e(), **mm())),
        ("snr.snr_circ_stationary", body(I)), ("snr.snr_circ_stationary", dict(body(I), **per)),
        ("snr.snr_ecc_stationary", body(I, False, True)),
        ("snr.snr_ecc_stationary", dict(body(I, False, True), **ways(I, "g sc"))),
        ("snr.snr_circ_evolving", body(I, True)),
        ("snr.snr_circ_evolving", dict(body(I, True), t_merge=q(I, "t_merge", "time"))),
        ("snr.snr_ecc_evolving", dict(body(I, True, True), t_merge=q(I, "t_merge", "time"), **ways(I, "g sc"))),
        ("snr.snr_ecc_evolving", dict(body(I, True, True), **ways(I, "g sc"))),
    ]
    return [(n, k) for n, k in out if k is not None and not any(x is None for x in k.values())]


def content(I, k):
    def one(x):
        x = I.res(x)
        if isinstance(x, Obj) and I.rec(x).cls == "SkyCoord":
            return Tup([I.getattr(x, "lon"), I.getattr(x, "lat")])
        if isinstance(x, Arr):
            return I.call(I.getattr(x, "copy"), [], {})
        return x
    return Tup([one(x) for _, x in sorted(k.items()) if isinstance(I.res(x), (Arr, Lst, Dct, Obj))])


def other(I, k, p):
    """the same arguments with another value for p"""
    v = I.res(k[p])

    def fresh(e):
        env = {}
        for s in t.nodes(e).values():
            if s.op == "sym" and not s.args[0].name.startswith("$"):
                d = s.args[0]
                env[s] = t.mk("sym", t.sym("other " + d.name, (), d.sgn, d.dom, d.isint, d.isbool).args[0], *s.args[1:])
        return t.subst(e, env) if env else None
    if isinstance(v, Arr):
        e = fresh(I.elem(v))
        return None if e is None else dict(k, **{p: I.mkarr(v.axes, e, v.unit, I.dt(v))})
    if isinstance(v, Sc):
        e = fresh(v.e)
        return None if e is None else dict(k, **{p: Sc(e, v.unit, v.kind)})
    if isinstance(v, Obj) and I.rec(v).cls == "SkyCoord":
        return dict(k, **{p: sky(I, (N,), " other")})
    return None


def run(ck):
    base = ck.new(SPECS)
    n = len(cases(base))
    for i in range(n):
        name, k0 = cases(base)[i]
        tag = "%s(%s)" % (name, ", ".join(sorted(k0)))
        if base.get(name) is None:
            continue
        I = ck.new(SPECS)

        def touched():
            k = cases(I)[i][1]
            callm(I, name, **k)
            return content(I, k)
        ck.ob("arguments left as they were: " + tag, I, touched, lambda: content(I, cases(I)[i][1]), raises="none")
        for p in sorted(k0):
            if other(base, k0, p) is None:
                continue
            I = ck.new(SPECS)

            def second():
                k = cases(I)[i][1]
                callm(I, name, **k)
                return callm(I, name, **other(I, k, p))
            ck.ob("not affected by an earlier call with another %s: %s" % (p, tag), I, second,
                  lambda: callm(I, name, **other(I, cases(I)[i][1], p)), raises="none")
            I = ck.new(SPECS)

            def first():
                k = cases(I)[i][1]
                a = callm(I, name, **k)
                callm(I, name, **other(I, k, p))
                return a
            ck.ob("result kept during another call with another %s: %s" % (p, tag), I, first,
                  lambda: callm(I, name, **cases(I)[i][1]), raises="none")
    collections(ck)


def settings(I, n):
    """every instrument setting given explicitly, since settings given stay in force for later calls"""
    d = {"LISA": dict(instrument="LISA", approximate_R=True, confusion_noise="robson19"),
         "TianQin": dict(instrument="TianQin", approximate_R=False, confusion_noise="huang20")}[n]
    d = {k: py(I, v) for k, v in d.items()}
    d["t_obs"] = scal(I, "t_obs " + n, "time", dom=(1e7, 1e9))
    d["L"] = scal(I, "L " + n, "a", dom=(1e9, 1e10)) if n == "LISA" else py(I, "auto")
    d["custom_psd"] = NONE
    return d


def stub(I):
    """signal-to-noise ratios and stationarity as unknown functions of what they are told"""
    from checks.c14 import ALIKE
    for f, g, stand in ALIKE:
        I.stubs[f] = stand


def queries(I):
    """what can be asked of a collection without changing its sources (name -> call)"""
    some = lambda n: mask(I, n)

    def snr(name, n, kept=("custom_psd",), **k):
        d = settings(I, n)
        d = {a: b for a, b in d.items() if a != "custom_psd"}
        return lambda x: meth(I, x, name, **d, **k)
    out = {
        "h_0_n": lambda x: meth(I, x, "get_h_0_n", py(I, [1, 2])),
        "h_0_n of some": lambda x: meth(I, x, "get_h_0_n", py(I, [2, 3]), which_sources=some("chosen")),
        "h_c_n": lambda x: meth(I, x, "get_h_c_n", py(I, [1, 2])),
        "h_c_n of some": lambda x: meth(I, x, "get_h_c_n", py(I, [2, 3]), which_sources=some("selected")),
        "mask": lambda x: meth(I, x, "get_source_mask", circular=TRUEV, stationary=FALSEV, t_obs=scal(I, "t", "time", dom=(1e6, 1e9))),
        "other mask": lambda x: meth(I, x, "get_source_mask", circular=FALSEV, stationary=TRUEV, t_obs=scal(I, "tt", "time", dom=(1e6, 1e9))),
        "merger time": lambda x: meth(I, x, "get_merger_time", save_in_class=FALSEV),
        "merger time of some": lambda x: meth(I, x, "get_merger_time", save_in_class=FALSEV, which_sources=some("chosen")),
        "derived": lambda x: callm(I, "spec_source.read_derived", src=x),
        "copy": lambda x: callm(I, "spec_source.view", src=meth(I, x, "copy")),
    }
    calc = {
        "snr LISA": snr("get_snr", "LISA"), "snr TianQin": snr("get_snr", "TianQin"),
        "stationary snr of some": snr("get_snr_stationary", "LISA", which_sources=some("chosen")),
        "evolving snr of some": snr("get_snr_evolving", "TianQin", which_sources=some("selected")),
    }
    return out, calc


def changes(I):
    """what changes a collection, each on the collection or on one made from it"""
    t_evol = lambda: scal(I, "t_evol", "time", dom=(1e6, 1e15))
    return {
        "evolution into a new collection": lambda x: meth(I, x, "evolve_sources", t_evol(), create_new_class=TRUEV),
        "copy": lambda x: meth(I, x, "copy"),
        "selection": lambda x: I.getitem(x, mask(I, "part")),
    }


READ = ("m_1", "m_2", "dist", "f_orb", "ecc", "merged", "t_merge", "weights", "inclination", "polarisation", "snr", "max_snr_harmonic")
NEW = dict(m_1="mass", m_2="mass", dist="dist", f_orb="f", ecc="ecc", merged=None)


def collections(ck):
    deep = ck.tier != "quick"
    for ecc in ("any", "zero"):
        for pos in ((False, True) if ecc == "zero" else (False,)):
            tag = "ecc %s%s" % (ecc, ", sky position" if pos else "")

            def new():
                I = ck.new(SPECS)
                stub(I)
                Q, C = queries(I)
                return I, lambda **k: make(I, merged=True, ecc=ecc, position=pos, **k), dict(Q, **C)
            names, calcs = [list(d) for d in queries(ck.new(SPECS))]
            results = lambda I, x, r: Tup([r, I.getattr(x, "snr"), I.getattr(x, "max_snr_harmonic")])
            for a in names:
                I, o, A = new()

                def asked():
                    x = o()
                    A[a](x)
                    return callm(I, "spec_source.view", src=x)
                ck.ob("collection left as it was by %s, %s" % (a, tag), I, asked, lambda: callm(I, "spec_source.view", src=o()))
            kinds = lambda n: n.replace(" of some", "").replace("other ", "")
            for a in names + calcs:
                for b in names + calcs:
                    if b == "copy" and a in calcs:
                        continue  # a copy carries the results and settings of the calculation
                    if not (deep or a in calcs or b in calcs or (kinds(a) == kinds(b) and a != b)):
                        continue
                    I, o, A = new()

                    def second():
                        x = o()
                        A[a](x)
                        return A[b](x)
                    ck.ob("%s after %s, %s" % (b, a, tag), I, second, lambda: A[b](o()))
                    if not (a in calcs or deep or kinds(a) == kinds(b)):
                        continue
                    I, o, A = new()

                    def first():
                        x = o()
                        r = A[a](x)
                        kept = results(I, x, r)
                        A[b](x)
                        return kept
                    ck.ob("results of %s kept during %s, %s" % (a, b, tag), I, first, lambda: (lambda x: results(I, x, A[a](x)))(o()))
            # the state in force decides
            for a in names + calcs:
                for n, kind in NEW.items():
                    if n == "ecc" and ecc == "zero":
                        continue
                    I, o, A = new()

                    def asked_with(x):
                        r = A[a](x)
                        return r.items[1] if a == "copy" else r

                    def changed(x):
                        I.setattr(x, n, q(I, "new_" + n, kind) if kind else mask(I, "new_" + n))
                        return x

                    def after():
                        x = o()
                        A[a](x)
                        return asked_with(changed(x))
                    ck.ob("%s with new %s after %s, %s" % (a, n, a, tag), I, after, lambda: asked_with(changed(o())))
            # a collection made from another one
            for how in changes(base_of(ck)):
                for a in names + calcs:
                    if how == "selection" and a.endswith(" of some"):
                        continue  # a choice among all the sources
                    I, o, A = new()
                    ch = changes(I)[how]

                    def original():
                        x = o()
                        A[a](ch(x))
                        return callm(I, "spec_source.view", src=x)

                    def untouched():
                        x = o()
                        ch(x)
                        return callm(I, "spec_source.view", src=x)
                    ck.ob("collection left as it was by %s on the result of its %s, %s" % (a, how, tag), I, original, untouched)
            # evolving a collection in place leaves what was read off it before, and what was made of it before
            for known in (False, True):
                for each in (False, True):
                    I, o, A = new()
                    te = q(I, "t_evol", "time", dom=(1e6, 1e15)) if each else scal(I, "t_evol", "time", dom=(1e6, 1e15))
                    on = lambda: make(I, merged=True, t_merge=known, ecc=ecc, position=pos, weights=True)
                    read = lambda x: Tup([I.getattr(x, n) for n in READ])

                    def held(evolve):
                        x = on()
                        kept = read(x)
                        if evolve:
                            meth(I, x, "evolve_sources", te)
                        return kept

                    def made(evolve, how):
                        x = on()
                        y = meth(I, x, "copy") if how == "copy" else I.getitem(x, mask(I, "part")) if how == "selection" else \
                            I.getitem(x, SliceV(NONE, py(I, 2), NONE)) if how == "slice" else \
                            meth(I, x, "evolve_sources", scal(I, "t_first", "time", dom=(1e6, 1e15)), create_new_class=TRUEV)
                        if evolve:
                            meth(I, x, "evolve_sources", te)
                        return read(y)
                    w = "%s, merger times %s, %s" % (tag, "known" if known else "not known", "own times" if each else "one time")
                    ck.ob("attributes read before an evolution in place are left as they were, " + w, I, lambda: held(True), lambda: held(False))
                    for how in ("copy", "selection", "slice", "evolved copy"):
                        I, o, A = new()
                        te = q(I, "t_evol", "time", dom=(1e6, 1e15)) if each else scal(I, "t_evol", "time", dom=(1e6, 1e15))
                        ck.ob("%s left as it was by evolving the original in place, %s" % (how, w), I, lambda: made(True, how),
                              lambda: made(False, how))
            # the arrays and settings a collection was made from
            for a in names + calcs + ["evolve", "evolve a copy", "merger time kept"]:
                I, o, A = new()
                A["evolve"] = lambda x: meth(I, x, "evolve_sources", scal(I, "t", "time", dom=(1e6, 1e15)))
                A["evolve a copy"] = lambda x: meth(I, x, "evolve_sources", scal(I, "t", "time", dom=(1e6, 1e15)), create_new_class=TRUEV)
                A["merger time kept"] = lambda x: meth(I, x, "get_merger_time")

                def given():
                    k = args(I, ecc=ecc, position=pos, weights=True)
                    k["sc_params"] = dct(I, settings(I, "LISA"))
                    return k

                def done():
                    k = given()
                    A[a](make(I, kw=dict(k), merged=True))
                    return content(I, k)
                ck.ob("what the collection was made from is left as it was by %s, %s" % (a, tag), I, done,
                      lambda: content(I, given()), raises="none")


def base_of(ck):
    return ck.new(SPECS)
