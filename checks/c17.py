"""C17: derived quantities and tolerances of a collection follow the values they derive from."""
from vfa.oblig import *
from checks.srcs import make, meth, mask, args
from checks.c12 import SPECS as S0

TECHNIQUE = ("value-flow through sequences of assignments: what is read after a history of assignments compared with the formula on "
             "the values assigned last, or with a collection created with them (loops summarised as functions of what they read)")
SPECS = S0 + ["source"]


def tol(n):
    return Sc(t.sym(n, sgn="p", dom=(0.01, 0.2)), None, "float")


TABLES = ("harmonics_required", "max_strain_harmonic")


def table_of(n, tol):
    from vfa import extmodel

    def info(interp, a, k):
        return extmodel.ew(interp, lambda e: t.app("int:" + n, t._bool2num(e), tol.e, sign="p"), list(a) + list(k.values()))
    return Opq(t.mk("callable", n, tol.e), "callable", info)


def tables(I, f, args, kwargs):
    o = I.res(args[0])
    for n in TABLES:
        I.setattr(o, n, table_of(n, I.getattr(o, "gw_lum_tol")))
    return NONE


def run(ck):
    for cls in ("source.Source", "source.Stationary", "source.Evolving"):
        for size in ("f", "a"):
            for w in ("nothing", "m_1", "m_2", "f_orb", "both masses", "all, twice"):
                I = ck.new(SPECS)
                new = {"nothing": (), "m_1": ("m_1",), "m_2": ("m_2",), "f_orb": ("f_orb",), "both masses": ("m_1", "m_2"),
                       "all, twice": ("m_1", "f_orb", "m_2", "m_1", "f_orb")}[w]

                def o():
                    x = make(I, cls, size=size)
                    for k, n in enumerate(new):
                        callm(I, "spec_source.read_derived", src=x)
                        I.setattr(x, n, q(I, "new_%s_%d" % (n, k), "f" if n == "f_orb" else "mass"))
                    return x
                ck.ob("derived values, %s made with %s, assigned %s" % (cls[7:], size, w), I,
                      lambda: callm(I, "spec_source.read_derived", src=o()), lambda: callm(I, "spec_source.derived", src=o()))
        for first in ((), ("m_1",), ("m_2", "f_orb")):
            I = ck.new(SPECS)

            def o():
                x = make(I, cls)
                for n in first:
                    callm(I, "spec_source.read_derived", src=x)
                    I.setattr(x, n, q(I, "new_" + n, "f" if n == "f_orb" else "mass"))
                return x

            def got():
                x = o()
                callm(I, "spec_source.read_derived", src=x)
                I.setattr(x, "a", q(I, "new_a", "a"))
                return callm(I, "spec_source.read_derived", src=x)
            ck.ob("separation assigned, %s, after %s" % (cls[7:], "+".join(first) or "nothing"), I, got,
                  lambda: callm(I, "spec_source.after_separation", src=o(), a=q(I, "new_a", "a")))
        # tolerances
        e = lambda I: scal(I, "e", "ecc")
        es = lambda I: q(I, "es", "ecc", (M,))
        for where, at in (("one eccentricity", e), ("an array", es)):
            for seq in (("t2",), ("t2", "t3"), ("t2", "t1"), ("t1",)):
                I = ck.new(SPECS)

                def got():
                    x = make(I, cls, tol=False, harmonics=False, over=dict(gw_lum_tol=tol("t1")))
                    for s in seq:
                        callm(I, "spec_source.tolerances", src=x, e=at(I))
                        meth(I, x, "get_source_mask", circular=TRUEV)
                        I.setattr(x, "gw_lum_tol", tol(s))
                    return callm(I, "spec_source.tolerances", src=x, e=at(I))

                def want():
                    x = make(I, cls, tol=False, harmonics=False, over=dict(gw_lum_tol=tol(seq[-1])))
                    return callm(I, "spec_source.tolerances", src=x, e=at(I))
                ck.ob("tolerance assigned %s, %s, %s" % (" then ".join(seq), cls[7:], where), I, got, want)
        # the tables of a tolerance as unknown functions of the tolerance they are made for
        for seq in (("t2",), ("t2", "t3"), ("t2", "t1"), ("t1",)):
            I = ck.new(SPECS)
            I.stubs["legwork.source.Source.create_harmonics_functions"] = tables

            def got():
                x = make(I, cls, tol=False, harmonics=False, over=dict(gw_lum_tol=tol("t1")))
                for s in seq:
                    I.setattr(x, "gw_lum_tol", tol(s))
                return callm(I, "spec_source.tolerances", src=x, e=es(I))

            def want():
                x = make(I, cls, tol=False, harmonics=False, over=dict(gw_lum_tol=tol(seq[-1])))
                return Tup([tol(seq[-1]), callm(I, "spec_source.first_eccentric", tol=tol(seq[-1]))]
                           + [I.call(table_of(n, tol(seq[-1])), [es(I)], {}) for n in TABLES])
            ck.ob("tables made for the tolerance in force: %s, %s" % (" then ".join(seq), cls[7:]), I, got, want)
        I = ck.new(SPECS)

        def two():
            x = make(I, cls, tol=False, harmonics=False, over=dict(gw_lum_tol=tol("t1")))
            y = meth(I, x, "copy")
            I.setattr(y, "gw_lum_tol", tol("t2"))
            return Tup([callm(I, "spec_source.tolerances", src=s, e=e(I)) for s in (x, y)])

        def apart():
            out = []
            for n in ("t1", "t2"):
                x = make(I, cls, tol=False, harmonics=False, over=dict(gw_lum_tol=tol(n)))
                out.append(callm(I, "spec_source.tolerances", src=x, e=e(I)))
            return Tup(out)
        ck.ob("tolerance of a copy, %s" % cls[7:], I, two, apart)
        I = ck.new(SPECS)
        ck.ob("eccentric from, %s" % cls[7:], I,
              lambda: I.getattr(make(I, cls, tol=False, harmonics=False, over=dict(gw_lum_tol=tol("t1"))), "ecc_tol"),
              lambda: callm(I, "spec_source.first_eccentric", tol=tol("t1")))
        for where, at in (("one eccentricity", e), ("an array", es)):
            I = ck.new(SPECS)
            ck.ob("loudest harmonic, %s, %s" % (where, cls[7:]), I,
                  lambda: callm(I, "spec_source.in_table", e=at(I), x=I.call(
                      I.getattr(make(I, cls, tol=False, harmonics=False), "max_strain_harmonic"), [at(I)], {})),
                  lambda: callm(I, "spec_source.loudest_harmonic", e=at(I)))
        # what is selected follows the tolerances
        for circ in (TRUEV, FALSEV):
            for stat in (TRUEV, FALSEV, NONE):
                I = ck.new(SPECS)

                def made(a, s):
                    x = make(I, cls, tol=False, ecc="any", over=dict(gw_lum_tol=a, stat_tol=s))
                    return x

                def got():
                    x = made(tol("t1"), tol("s1"))
                    meth(I, x, "get_source_mask", circular=circ, stationary=stat)
                    I.setattr(x, "gw_lum_tol", tol("t2"))
                    I.setattr(x, "stat_tol", tol("s2"))
                    return meth(I, x, "get_source_mask", circular=circ, stationary=stat)
                ck.ob("selection after tolerances change, %s, circular %s, stationary %s" % (cls[7:], circ.v, stat.v), I, got,
                      lambda: meth(I, made(tol("t2"), tol("s2")), "get_source_mask", circular=circ, stationary=stat))
        # g(n,e)
        for seq in ((True,), (False,), (True, False), (False, True), (True, True)):
            I = ck.new(SPECS)

            def got():
                x = make(I, cls, over=dict(interpolate_g=py(I, seq[0])))
                for s in seq[1:]:
                    meth(I, x, "set_g", py(I, s))
                return Tup([I.getattr(x, "interpolate_g"),
                            callm(I, "spec_source.g_at", src=x, n=integer("n", (1, 9)), e=e(I))])

            def want():
                if not seq[-1]:
                    return Tup([FALSEV, NONE])
                return Tup([TRUEV, callm(I, "spec_source.looked_up", n=integer("n", (1, 9)), e=e(I))])
            ck.ob("g(n,e) interpolated %s, %s" % (" then ".join(map(str, seq)), cls[7:]), I, got, want)

