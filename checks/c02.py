"""C02: the Peters functions."""
from vfa.oblig import *

TECHNIQUE = ("value-flow graphs of g, F, beta, c_0, a(e) and fn_dot in canonical algebraic form (Bessel functions "
             "uninterpreted, units as a dimension system) compared with the graphs of the published formulae; the "
             "condition under which fn_dot ends in an error is compared as a path predicate")


def run(ck):
    U, S = "utils.", "spec_utils."
    for tag, ax in (("arrays", (N,)), ("scalars", ()), ("grid", (N, M))):
        I = ck.new("utils")
        mk = (lambda *a, **k: q(*a, axes=ax, **k)) if ax else scal
        m1, m2 = mk(I, "m_1", "mass"), mk(I, "m_2", "mass")
        f, a = mk(I, "f_orb", "f"), mk(I, "a", "a")
        e, ep = mk(I, "ecc", "ecc"), mk(I, "eccp", "eccp")
        n = ints(I, "n", ax) if ax else integer("n")
        nx = ints(I, "nx", ax, dom=(-2, 4)) if ax else integer("nx", dom=(-2, 4))
        mc, c0 = mk(I, "m_c", "mass"), mk(I, "c0", "a")
        ck.ob("g(n,e), %s" % tag, I, lambda: callm(I, U + "peters_g", n=n, e=ep),
              lambda: callm(I, S + "peters_g", n=n, e=ep))
        ck.ob("F(e), %s" % tag, I, lambda: callm(I, U + "peters_f", e=e), lambda: callm(I, S + "peters_f", e=e))
        ck.ob("beta, %s" % tag, I, lambda: callm(I, U + "beta", m_1=m1, m_2=m2),
              lambda: callm(I, S + "beta", m_1=m1, m_2=m2))
        ck.ob("c_0, %s" % tag, I, lambda: callm(I, U + "c_0", a_i=a, ecc_i=ep),
              lambda: callm(I, S + "c_0", a_i=a, ecc_i=ep))
        ck.ob("a(e), %s" % tag, I, lambda: callm(I, U + "get_a_from_ecc", ecc=ep, c_0=c0),
              lambda: callm(I, S + "a_from_ecc", ecc=ep, c0=c0))
        ck.ob("a(e) undoes c_0, %s" % tag, I,
              lambda: callm(I, U + "get_a_from_ecc", ecc=ep, c_0=callm(I, U + "c_0", a_i=a, ecc_i=ep)), lambda: a)
        ck.ob("fn_dot value and rejection of n < 1, %s" % tag, I,
              lambda: callm(I, U + "fn_dot", m_c=mc, f_orb=f, e=e, n=nx),
              lambda: callm(I, S + "fn_dot", m_c=mc, f_orb=f, e=e, n=nx))
    I = ck.new("utils")
    n, e = ints(I, "n", (t.ONE, H)), q(I, "ecc", "eccp", (N, t.ONE))
    ck.ob("g(n,e) broadcast harmonics x sources", I, lambda: callm(I, U + "peters_g", n, e),
          lambda: callm(I, S + "peters_g", n, e))
