"""C20: saving sources to a file and reading them back."""
from vfa.oblig import *
from checks.srcs import make, meth, args
from checks.c12 import SPECS as S0
from checks.c15 import named, dct
from checks.c19 import filled

TECHNIQUE = ("value-flow through a model of the file (what is stored under which name is what is read back): every attribute of "
             "the collection that is read compared with the one that was saved; effect analysis of the file opened for writing")
SPECS = S0 + ["source"]


def load(I, name="x.h5", cls="source.Source", **k):
    return I.call(I.getattr(I.get(cls), "from_file"), [py(I, name)], k)


def run(ck):
    view = lambda I, o: callm(I, "spec_source.kind_and_view", src=o)
    for cls in ("source.Source", "source.Stationary", "source.Evolving"):
        for ecc, pos in (("any", False), ("zero", True)):
            for w in (False, True):
                for done in (False, True):
                    I = ck.new(SPECS)
                    tag = "%s, ecc %s%s%s%s" % (cls[7:], ecc, ", sky position" if pos else "", ", weights" if w else "",
                                                ", results known" if done else "")
                    over = dict(gw_lum_tol=scal(I, "gw_tol", "eccp", dom=(0.01, 0.1)), n_proc=integer("n_proc", (1, 8)),
                                stat_tol=scal(I, "stat_tol", "eccp", dom=(0.001, 0.1)))

                    def o():
                        x = make(I, cls, ecc=ecc, position=pos, weights=w, tol=False, over=over)
                        if done:
                            for n, v in (("snr", q(I, "old_snr", "snr")), ("max_snr_harmonic", ints(I, "old_loud", (N,))),
                                         ("t_merge", q(I, "t_merge", "time")),
                                         ("merged", I.mkarr((N,), t.sym("merged", (N,), isbool=True), None, "b"))):
                                I.setattr(x, n, v)
                        return x

                    def back(via="source.Source"):
                        x = o()
                        meth(I, x, "save", py(I, "x.h5"), overwrite=TRUEV)
                        return view(I, load(I, cls=via))
                    ck.ob("read back: " + tag, I, back, lambda: view(I, o()))
                    ck.ob("read back by its own class: " + tag, I, lambda: back(cls), lambda: view(I, o()))
    # settings
    from checks.c15 import GIVEN
    for inst, which in GIVEN:
        for interp in (False, True):
            if "noise" in which or inst == "custom":
                want = {k for k in which if k != "noise"}
            else:
                want = set(which)
            I = ck.new(SPECS)
            d = named(I, inst, which)
            kept = {k: v for k, v in d.items() if k not in ("custom_psd",) and not (k == "confusion_noise" and "noise" in which)}
            f = lambda: q(I, "f", "f", (M,), dom=(1e-9, 1e3))
            o = lambda d: make(I, ecc="zero", over=dict(interpolate_sc=py(I, interp), **(dict(sc_params=dct(I, d)) if d else {})))

            def back():
                meth(I, o(d), "save", py(I, "x.h5"), overwrite=TRUEV)
                return callm(I, "spec_source.state", src=load(I, **({} if inst != "custom" else {"interpolate_sc": FALSEV})), f=f())
            ck.ob("settings read back: %s %s%s" % (inst, "+".join(which) or "defaults", ", curve interpolated" if interp else ""),
                  I, back, lambda: callm(I, "spec_source.made", f=f(), given=dct(I, kept),
                                         interpolate=py(I, interp and inst != "custom")))
    # choices made when loading win over the saved ones
    for saved in (True, False):
        for given in (True, False, None):
            I = ck.new(SPECS)
            f = lambda: q(I, "f", "f", (M,), dom=(1e-9, 1e3))
            d = named(I, "TianQin", ("t_obs",))

            def back():
                x = make(I, ecc="zero", over=dict(interpolate_sc=py(I, saved), sc_params=dct(I, d), n_proc=integer("n_proc", (1, 8))))
                meth(I, x, "save", py(I, "x.h5"), overwrite=TRUEV)
                y = load(I, **({} if given is None else dict(interpolate_sc=py(I, given), n_proc=integer("procs", (2, 9)))))
                return Tup([callm(I, "spec_source.state", src=y, f=f()), I.getattr(y, "interpolate_sc"), I.getattr(y, "n_proc"),
                            I.getattr(y, "interpolate_g")])

            def want():
                i = saved if given is None else given
                return Tup([callm(I, "spec_source.made", f=f(), given=dct(I, d), interpolate=py(I, i)), py(I, i),
                            integer(*(("n_proc", (1, 8)) if given is None else ("procs", (2, 9)))), FALSEV])
            ck.ob("curve interpolation saved %s, asked %s when loading" % (saved, given), I, back, want)
    for saved in (True, False):
        for given in (True, False, None):
            I = ck.new(SPECS)

            def g_of(x):
                return callm(I, "spec_source.g_at", src=x, n=integer("n", (1, 9)), e=scal(I, "e", "ecc"))

            def back():
                x = make(I, ecc="zero", over=dict(interpolate_g=py(I, saved)))
                meth(I, x, "save", py(I, "x.h5"), overwrite=TRUEV)
                return g_of(load(I, **({} if given is None else dict(interpolate_g=py(I, given)))))
            ck.ob("g(n,e) interpolation saved %s, asked %s when loading" % (saved, given), I, back,
                  lambda: g_of(make(I, ecc="zero", over=dict(interpolate_g=py(I, saved if given is None else given)))))
    # several saves
    for name in ("x", "x.h5", "x.hdf5", "a.b", "dir/x.txt"):
        I = ck.new(SPECS)
        I2 = None

        def two():
            x = make(I, ecc="any", over=dict(n_proc=py(I, 2)))
            meth(I, x, "save", py(I, name), overwrite=TRUEV)
            y = make(I, ecc="zero", over=dict(n_proc=py(I, 3)))
            meth(I, y, "save", py(I, name), overwrite=TRUEV)
            full = name if name.endswith((".h5", ".hdf5")) else name + ".h5"
            return Tup([view(I, load(I, name)), view(I, load(I, full))])

        def want():
            v = view(I, make(I, ecc="zero", tol=False, over=dict(n_proc=py(I, 3))))
            return Tup([v, v])
        ck.ob("saved again under the name %r" % name, I, two, want)
    guard(ck)


def guard(ck):
    """an existing file is opened for writing only when that was asked for"""
    def go(name, over):
        I = ck.new(SPECS)
        o = make(I, ecc="zero")
        n = len(I.events)
        r = len(I.raises)
        kw = {} if over is None else {"overwrite": over(I)}
        from vfa.values import Dead
        try:
            meth(I, o, "save", py(I, name), **kw)
        except Dead:
            pass
        full = name if name.endswith((".h5", ".hdf5")) else name + ".h5"
        there = t.mk("bapp", "isfile", (t.mk("path", (full,)),))
        ask = t.FALSE if over is None else t.truth(I.elem(over(I))) if not isinstance(over(I), Const) else (t.TRUE if over(I).v else t.FALSE)
        writes = [e for e in I.events[n:] if e.name == "h5py.File" and I.key(e.args[1]) not in (("const", "r"),)]
        from vfa.canon import Canon
        bad = [e for e in writes if Canon().term(t.and_(e.pc, there, t.not_(ask))) is not t.FALSE]
        wrong = [e for e in writes if I.key(e.args[0]) != ("const", full)]
        err = t.or_(*[x.pc for x in I.raises[r:] if str(x.exc) == "FileExistsError"])
        same = Canon().term(err) is Canon().term(t.and_(there, t.not_(ask)))
        return I, writes, bad, wrong, same

    for name in ("x.h5", "x", "x.hdf5"):
        for tag, over in (("not said", None), ("no", lambda I: FALSEV), ("yes", lambda I: TRUEV), ("either way", lambda I: flag("overwrite"))):
            def one():
                I, writes, bad, wrong, same = go(name, over)
                ck.account(I)
                ck.rule("existing file kept unless overwriting: save(%r), overwrite %s" % (name, tag), not bad,
                        "opened for writing although it exists", [e.where for e in bad],
                        rule="no path opens an existing file for writing unless overwrite was asked for", kind="effect")
                ck.rule("name of the file written: save(%r), overwrite %s" % (name, tag), bool(writes) and not wrong,
                        "another file is written", [e.where for e in wrong], rule="exactly the named file is written", kind="effect")
                ck.rule("FileExistsError exactly when the file is there and overwrite is off: save(%r), overwrite %s" % (name, tag),
                        same, "the error is raised in other cases", [], rule="error condition", kind="effect")
            ck.guarded("overwrite guard %s %s" % (name, tag), one)
    for name in ("x.h5", "x", "x.hdf5"):
        def one():
            I = ck.new(SPECS)
            from vfa.canon import Canon
            from vfa.values import Dead
            try:
                load(I, name)
            except Dead:
                pass
            full = name if name.endswith((".h5", ".hdf5")) else name + ".h5"
            there = t.mk("bapp", "isfile", (t.mk("path", (full,)),))
            other = [x for x in I.raises if str(x.exc) != "FileNotFoundError"
                     and Canon().term(t.and_(x.pc, t.not_(there))) is not t.FALSE]
            err = t.or_(*[x.pc for x in I.raises if str(x.exc) == "FileNotFoundError"])
            ck.account(I)
            ck.rule("a missing file is reported: %r" % name,
                    not other and Canon().term(t.and_(t.not_(err), t.not_(there))) is t.FALSE,
                    "a missing file is not reported by FileNotFoundError", [x.where for x in other],
                    rule="FileNotFoundError on every path on which the file does not exist", kind="effect")
        ck.guarded("missing file %r" % name, one)
