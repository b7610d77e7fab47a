"""C01: Kepler's third law and the chirp mass."""
from vfa.oblig import *

TECHNIQUE = ("value-flow graph of the conversion functions, brought to canonical algebraic form with units as a "
             "dimension system, compared with the graph of the stated law")


def run(ck):
    mixed(ck)
    for tag, ax in (("arrays", (N,)), ("scalars", ()), ("grid", (N, M))):
        I = ck.new("utils")
        mk = (lambda *a, **k: q(*a, axes=ax, **k)) if ax else scal
        m1, m2 = mk(I, "m_1", "mass"), mk(I, "m_2", "mass")
        f, a = mk(I, "f_orb", "f"), mk(I, "a", "a")
        p1 = mk(I, "p_1", "mass", u=None, dom=(0.1, 50))
        p2 = mk(I, "p_2", "mass", u=None, dom=(0.1, 50))
        U, S = "utils.", "spec_utils."
        ck.ob("chirp_mass formula, %s with units" % tag, I, lambda: callm(I, U + "chirp_mass", m1, m2),
              lambda: callm(I, S + "chirp_mass", m1, m2))
        ck.ob("chirp_mass formula, %s without units" % tag, I, lambda: callm(I, U + "chirp_mass", p1, p2),
              lambda: callm(I, S + "chirp_mass", p1, p2))
        ck.ob("chirp_mass symmetric, %s" % tag, I, lambda: callm(I, U + "chirp_mass", m1, m2),
              lambda: callm(I, U + "chirp_mass", m2, m1))
        ck.ob("semi-major axis from frequency, %s" % tag, I,
              lambda: callm(I, U + "get_a_from_f_orb", f_orb=f, m_1=m1, m_2=m2),
              lambda: callm(I, S + "a_from_f", f_orb=f, m_1=m1, m_2=m2))
        ck.ob("frequency from semi-major axis, %s" % tag, I,
              lambda: callm(I, U + "get_f_orb_from_a", a=a, m_1=m1, m_2=m2),
              lambda: callm(I, S + "f_from_a", a=a, m_1=m1, m_2=m2))
        ck.ob("frequency -> axis -> frequency, %s" % tag, I,
              lambda: callm(I, U + "get_f_orb_from_a", a=callm(I, U + "get_a_from_f_orb", f_orb=f, m_1=m1, m_2=m2),
                            m_1=m1, m_2=m2), lambda: f)
        ck.ob("axis -> frequency -> axis, %s" % tag, I,
              lambda: callm(I, U + "get_a_from_f_orb", f_orb=callm(I, U + "get_f_orb_from_a", a=a, m_1=m1, m_2=m2),
                            m_1=m1, m_2=m2), lambda: a)


def mixed(ck):
    """the two masses, the frequency and the separation each in a unit of its own"""
    U, S = "utils.", "spec_utils."
    for tag, ax in (("arrays", (N,)), ("scalars", ()), ("grid", (N, M))):
        for u1, u2, uf, ua in (("Msun", "kg", "mHz", "km"), ("kg", "Msun", "Hz", "Rsun"), ("jupiterMass", "Msun", "kHz", "m")):
            I = ck.new("utils")
            mk = (lambda *a, **k: q(*a, axes=ax, **k)) if ax else scal
            m1, m2, f, a = mk(I, "m_1", "mass", u=u1), mk(I, "m_2", "mass", u=u2), mk(I, "f_orb", "f", u=uf), mk(I, "a", "a", u=ua)
            w = "%s in %s, %s, %s and %s" % (tag, u1, u2, uf, ua)
            ck.ob("chirp_mass, " + w, I, lambda: callm(I, U + "chirp_mass", m1, m2), lambda: callm(I, S + "chirp_mass", m1, m2))
            ck.ob("semi-major axis, " + w, I, lambda: callm(I, U + "get_a_from_f_orb", f_orb=f, m_1=m1, m_2=m2),
                  lambda: callm(I, S + "a_from_f", f_orb=f, m_1=m1, m_2=m2))
            ck.ob("frequency, " + w, I, lambda: callm(I, U + "get_f_orb_from_a", a=a, m_1=m1, m_2=m2),
                  lambda: callm(I, S + "f_from_a", a=a, m_1=m1, m_2=m2))
