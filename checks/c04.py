"""C04: detector response and amplitude modulation."""
from vfa.oblig import *

TECHNIQUE = ("value-flow graphs of the response functions and of amplitude_modulation in canonical algebraic form "
             "(trigonometric functions uninterpreted) compared with the graphs of the published formulae")


def run(ck):
    U, S = "utils.", "spec_utils."
    names = [("D_plus_squared", "d_plus_sq", 2), ("D_cross_squared", "d_cross_sq", 2),
             ("D_plus_D_cross", "d_plus_cross", 2), ("F_plus_squared", "f_plus_sq", 3),
             ("F_cross_squared", "f_cross_sq", 3)]
    for tag, ax in (("arrays", (N,)), ("scalars", ())):
        for un_ in ("rad", None):
            I = ck.new("utils")
            mk = (lambda n: q(I, n, "angle", ax, u=un_)) if ax else (lambda n: scal(I, n, "angle", u=un_))
            args = [mk(n) for n in ("theta", "phi", "psi")]
            for a, b, k in names:
                ck.ob("%s, %s, %s" % (a, tag, un_ or "plain numbers"), I, lambda: callm(I, U + a, *args[:k]),
                      lambda: callm(I, S + b, *args[:k]))
    I = ck.new(["utils", "strain"])
    args = [q(I, n, "angle", (N,)) for n in ("theta", "phi", "psi")]
    inc, pol = q(I, "inclination", "angle"), q(I, "polarisation", "angle")
    pos = sky(I)
    ck.ob("amplitude modulation", I,
          lambda: callm(I, "strain.amplitude_modulation", position=pos, polarisation=pol, inclination=inc),
          lambda: callm(I, "spec_strain.amplitude_modulation", pos, pol, inc))
