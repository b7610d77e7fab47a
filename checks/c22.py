"""C22: what a collection holds after construction, and which arguments are refused."""
from vfa.oblig import *
from vfa.canon import Canon
from vfa.values import Dead
from checks.srcs import args
from checks.c12 import SPECS as S0

TECHNIQUE = ("value-flow of the constructor for every combination of arguments, every attribute and the condition of every error "
             "compared with the specification; provenance analysis of the values drawn at random")
SPECS = S0 + ["source"]
K = t.axis_sym("K", 2)


def build(I, cls, kw):
    a = dict(kw)
    a.setdefault("interpolate_g", FALSEV)
    a.setdefault("interpolate_sc", FALSEV)
    return I.call(I.get(cls), [], a)


def run(ck):
    shapes = (("many", (N,)), ("one", ()))
    for cls in ("source.Source", "source.Stationary", "source.Evolving"):
        for sname, ax in shapes:
            for size in ("f", "a", "both"):
                for ecc in ("any", "zero"):
                    for pos in ((None, "given") if ecc == "zero" else (None,)):
                        for w in (False, True):
                            I = ck.new(SPECS)

                            def kw(I):
                                k = args(I, ax, ecc=ecc, position=pos, weights=w, size="f" if size == "both" else size)
                                if size == "both":
                                    k["a"] = q(I, "a", "a", ax) if ax else scal(I, "a", "a")
                                return k
                            opt = dict(gw_lum_tol=scal(I, "gw_tol", "eccp", dom=(0.01, 0.1)), n_proc=integer("n_proc", (1, 8)),
                                       stat_tol=scal(I, "stat_tol", "eccp", dom=(0.001, 0.1))) if w else {}
                            ck.ob("%s, %s, size by %s, ecc %s%s%s" % (cls[7:], sname, size, ecc, ", sky position" if pos else "",
                                                                     ", weights and options" if w else ""), I,
                                  lambda: callm(I, "spec_source.contents", src=build(I, cls, dict(kw(I), **opt))),
                                  lambda: callm(I, "spec_source.constructed", **dict(kw(I), **opt)))
            # orientations drawn at random
            for given in ((), ("inclination",), ("polarisation",)):
                I = ck.new(SPECS)

                def kw(I):
                    k = args(I, ax, ecc="zero", position="given")
                    for n in ("inclination", "polarisation"):
                        if n not in given:
                            k[n] = NONE
                    return k
                ck.ob("%s, %s, sky position, given %s" % (cls[7:], sname, "+".join(given) or "no orientation"), I,
                      lambda: callm(I, "spec_source.contents", src=build(I, cls, kw(I)), orientation=FALSEV),
                      lambda: callm(I, "spec_source.constructed", **{k: v for k, v in kw(I).items()
                                                                     if k not in ("inclination", "polarisation")}))
                ck.guarded("random orientations %s %s %s" % (cls, sname, given), lambda: drawn(ck, cls, sname, ax, kw, given))
    # refused
    cls = "source.Source"
    for sname, ax in shapes:
        for what, change in (
                ("neither frequency nor separation", dict(f_orb=lambda I: NONE)),
                ("inclination without position", dict(inclination=lambda I: v(I, "inc", "angle", ax))),
                ("polarisation without position", dict(polarisation=lambda I: v(I, "pol", "angle", ax))),
                ("orientation without position", dict(inclination=lambda I: v(I, "inc", "angle", ax),
                                                      polarisation=lambda I: v(I, "pol", "angle", ax)))):
            I = ck.new(SPECS)
            kw = lambda: dict(args(I, ax), **{k: f(I) for k, f in change.items()})
            ck.ob("refused: %s, %s" % (what, sname), I, lambda: callm(I, "spec_source.contents", src=build(I, cls, kw())),
                  lambda: callm(I, "spec_source.constructed", **kw()))
        I = ck.new(SPECS)

        def kw():
            k = args(I, ax, ecc="any", position="given")
            e = t.sym("ecc", ax, dom=(0, 0.95), sgn="n")
            c = t.sym("some", ax, isbool=True)
            k["ecc"] = I.mkarr(ax, t.ite(c, e, t.ZERO)) if ax else Sc(t.ite(c, e, t.ZERO), None, "float")
            return k
        ck.ob("refused: eccentric sources with a sky position, %s" % sname, I,
              lambda: callm(I, "spec_source.contents", src=build(I, cls, kw())), lambda: callm(I, "spec_source.constructed", **kw()))
    for short in ("m_1", "m_2", "dist", "f_orb", "ecc", "weights"):
        for ax in ((K,), ()):
            ck.guarded("lengths %s %s" % (short, ax), lambda: lengths(ck, cls, short, ax))
    for bare in ("m_1", "m_2", "dist", "f_orb"):
        for sname, ax in shapes:
            ck.guarded("units %s %s" % (bare, sname), lambda: units(ck, cls, bare, sname, ax))


def v(I, n, k, ax):
    return q(I, n, k, ax) if ax else scal(I, n, k)


def lengths(ck, cls, short, ax):
    """a ValueError on every path on which the lengths differ"""
    I = ck.new(SPECS)
    kw = args(I, (N,), weights=True)
    kind = {"m_1": "mass", "m_2": "mass", "dist": "dist", "f_orb": "f", "ecc": "ecc", "weights": "weight"}[short]
    kw[short] = v(I, "other", kind, ax)
    differ = t.not_(t.eq(t.size_of(N), t.size_of(K) if ax else t.ONEN))
    try:
        build(I, cls, kw)
    except Dead:
        pass
    wrong = [r for r in I.raises if str(r.exc) not in ("ValueError",)]
    some = t.or_(*[r.pc for r in I.raises if str(r.exc) == "ValueError"])
    escaped = Canon().term(t.and_(differ, t.not_(some)))
    ck.account(I)
    ck.rule("refused: %s %s" % (short, "of another length" if ax else "a single number for many sources"),
            escaped is t.FALSE and not wrong, "accepted although the lengths differ",
            [], rule="ValueError on every path with arguments of different lengths", kind="error condition")


def units(ck, cls, bare, sname, ax):
    I = ck.new(SPECS)
    kw = args(I, ax)
    kw[bare] = I.mkarr(ax, t.sym("bare", ax, sgn="p", dom=(1, 2))) if ax else Sc(t.sym("bare", (), sgn="p", dom=(1, 2)), None, "float")
    done = False
    try:
        build(I, cls, kw)
        done = True
    except Dead:
        pass
    ck.account(I)
    ck.rule("refused: %s without units, %s" % (bare, sname), not done and any(str(r.exc) == "AssertionError" for r in I.raises),
            "accepted without units", [], rule="no path returns for a bare number where a unit is needed", kind="error condition")


def drawn(ck, cls, sname, ax, kw, given):
    I = ck.new(SPECS)
    o = build(I, cls, kw(I))
    ck.account(I)
    seen = []
    for n in ("inclination", "polarisation"):
        x = I.res(I.getattr(o, n))
        if n in given:
            ck.rule("%s kept, %s, %s" % (n, cls[7:], sname), I.key(x) == I.key(I.models["numpy.atleast_1d"](I, [kw(I)[n]], {})), "changed", [], rule="a given orientation is used as it is",
                kind="provenance")
            continue
        e = I.elem(x) if isinstance(x, Arr) else None
        if e is None or e.top:
            ck.rule("%s drawn, %s, %s" % (n, cls[7:], sname), None, "not followed")
            continue
        rs = [s for s in t.nodes(e).values() if s.op == "sym" and s.args[0].name.startswith("random")]
        want = None
        if len(rs) == 1:
            want = t.fn("arccos", rs[0]) if n == "inclination" else t.mul(t.PI, rs[0])
        ok = len(rs) == 1 and e is want and set(rs[0].ax) == set(ax) and tuple(x.axes) == (ax or (t.ONE,)) \
            and rs[0] not in seen
        seen += rs
        ck.rule("%s drawn, %s, %s" % (n, cls[7:], sname), ok, "not drawn independently and isotropically: %r" % e, [],
                rule="one draw per source and angle: cos i uniform in [0, 1), polarisation uniform in [0, pi)", kind="provenance")
