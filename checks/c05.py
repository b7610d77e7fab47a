"""C05: merger times."""
from vfa.oblig import *

TECHNIQUE = ("value-flow graphs of the merger-time functions, per regime (gated by the eccentricity), with the "
             "integral as a functional of its integrand's graph, compared with the published expressions")


def run(ck):
    E, S = "evol.", "spec_evol."
    for tag, ax in (("arrays", (N,)), ("one source", ())):
        def inputs(I, how):
            mk = (lambda *a, **k: q(*a, axes=ax, **k)) if ax else scal
            kw = {}
            if how in ("beta and a_i",):
                kw.update(beta=mk(I, "beta", "beta"), a_i=mk(I, "a_i", "a"))
            if how in ("masses and f_orb_i", "masses and a_i", "everything"):
                kw.update(m_1=mk(I, "m_1", "mass"), m_2=mk(I, "m_2", "mass"))
            if how in ("masses and f_orb_i", "everything"):
                kw.update(f_orb_i=mk(I, "f_orb_i", "f"))
            if how in ("masses and a_i", "everything"):
                kw.update(a_i=mk(I, "a_i", "a"))
            if how == "everything":
                kw.update(beta=mk(I, "beta", "beta"))
            if how == "a_i only":
                kw.update(a_i=mk(I, "a_i", "a"))
            if how == "beta and f_orb_i":
                kw.update(beta=mk(I, "beta", "beta"), f_orb_i=mk(I, "f_orb_i", "f"))
            if how == "masses only":
                kw.update(m_1=mk(I, "m_1", "mass"), m_2=mk(I, "m_2", "mass"))
            return kw
        for how in ("beta and a_i", "masses and f_orb_i", "masses and a_i", "everything", "a_i only",
                    "beta and f_orb_i", "masses only"):
            I = ck.new(["utils", "evol"])
            kw = inputs(I, how)
            ck.ob("circular merger time from %s, %s" % (how, tag), I, lambda: callm(I, E + "get_t_merge_circ", **kw),
                  lambda: callm(I, S + "t_merge_circ", **kw))
            for exact in ((True, False) if how in ("beta and a_i", "masses and f_orb_i") else (True,)):
                I = ck.new(["utils", "evol"])
                kw = inputs(I, how)
                mk = (lambda *a, **k: q(*a, axes=ax, **k)) if ax else scal
                kw["ecc_i"] = mk(I, "ecc_i", "ecc", dom=(0, 0.99999))
                kw["exact"] = Const(exact)
                ck.ob("eccentric merger time from %s, %s, %s" % (how, tag, "integral" if exact else "fit"), I,
                      lambda: callm(I, E + "get_t_merge_ecc", **kw), lambda: callm(I, S + "t_merge_ecc", **kw))
        # caller-chosen regime limits
        I = ck.new(["utils", "evol"])
        kw = inputs(I, "beta and a_i")
        mk = (lambda *a, **k: q(*a, axes=ax, **k)) if ax else scal
        kw["ecc_i"] = mk(I, "ecc_i", "ecc", dom=(0, 0.99999))
        kw["small_e_tol"] = Sc(t.sym("small_e_tol", sgn="p", dom=(0.05, 0.3)), None, "float")
        kw["large_e_tol"] = Sc(t.sym("large_e_tol", sgn="p", dom=(0.5, 0.99)), None, "float")
        kw["exact"] = flag("exact")
        ck.ob("eccentric merger time, regime limits and method chosen by the caller, %s" % tag, I,
              lambda: callm(I, E + "get_t_merge_ecc", **kw), lambda: callm(I, S + "t_merge_ecc", **kw))
        I = ck.new(["utils", "evol"])
        e = mk(I, "ecc_i", "ecc", dom=(0, 0.9999))
        ck.ob("Mandel fit factor, %s" % tag, I, lambda: callm(I, E + "t_merge_mandel_fit", ecc_i=e),
              lambda: callm(I, S + "mandel_fit", e))
    I = ck.new(["utils", "evol"])
    kw = dict(beta=q(I, "beta", "beta"), a_i=q(I, "a_i", "a"))
    z = I.mkarr((N,), t.ZERO)
    ck.ob("zero eccentricity gives the circular merger time, arrays", I,
          lambda: callm(I, E + "get_t_merge_ecc", ecc_i=z, **kw), lambda: callm(I, E + "get_t_merge_circ", **kw))
    I = ck.new(["utils", "evol"])
    kw = dict(beta=scal(I, "beta", "beta"), a_i=scal(I, "a_i", "a"))
    ck.ob("zero eccentricity gives the circular merger time, one source", I,
          lambda: callm(I, E + "get_t_merge_ecc", ecc_i=fl(0.0), **kw), lambda: callm(I, E + "get_t_merge_circ", **kw))
