"""C03: strain amplitudes per harmonic."""
from vfa.oblig import *

TECHNIQUE = ("value-flow graphs of h_0_n and h_c_n (index notation over sources, timesteps and harmonics; units as a "
             "dimension system) in canonical form, compared with the graphs of the stated formulae for every input "
             "layout; the error condition is compared as a path predicate")


def run(ck):
    for fn_ in ("h_0_n", "h_c_n"):
        for tag, ax, two in (("sources", (N,), False), ("sources x timesteps", (N,), True), ("one source", (), False)):
            for g in ("exact g", "interpolated g"):
                for sk in ("no position", "sky position"):
                    if sk == "sky position" and not ax:
                        continue
                    I = ck.new(["utils", "strain"])
                    mk = (lambda *a, **k: q(*a, axes=ax, **k)) if ax else scal
                    mc, d = mk(I, "m_c", "mass"), mk(I, "dist", "dist")
                    f = q(I, "f_orb", "f", (N, K)) if two else mk(I, "f_orb", "f")
                    e = q(I, "ecc", "eccp", (N, K)) if two else mk(I, "ecc", "eccp")
                    n = ints(I, "n") if ax else integer("n")
                    kw = dict(m_c=mc, f_orb=f, ecc=e, n=n, dist=d)
                    if g == "interpolated g":
                        kw["interpolated_g"] = ufun(I, "signed g_spline")
                    if sk == "sky position":
                        kw.update(position=sky(I), polarisation=q(I, "pol", "angle"),
                                  inclination=q(I, "inc", "angle"))
                    ck.ob("%s: %s, %s, %s" % (fn_, tag, g, sk), I, lambda: callm(I, "strain." + fn_, **kw),
                          lambda: callm(I, "spec_strain." + fn_, **kw))
        I = ck.new(["utils", "strain"])
        kw = dict(m_c=q(I, "m_c", "mass"), f_orb=q(I, "f_orb", "f"), ecc=q(I, "ecc", "eccp"),
                  n=ints(I, "nx", dom=(-1, 3)), dist=q(I, "dist", "dist"))
        ck.ob("%s: harmonics below one are rejected, all others accepted" % fn_, I,
              lambda: callm(I, "strain." + fn_, **kw), lambda: callm(I, "spec_strain." + fn_, **kw))
        I = ck.new(["utils", "strain"])
        kw = dict(m_c=q(I, "m_c", "mass"), f_orb=q(I, "f_orb", "f"), ecc=q(I, "ecc", "eccp", (N, K)),
                  n=py(I, [1, 2, 3]), dist=q(I, "dist", "dist"))
        ck.ob("%s: harmonics given as a list, one frequency per source with an eccentricity history" % fn_, I,
              lambda: callm(I, "strain." + fn_, **kw), lambda: callm(I, "spec_strain." + fn_, **kw))
    for tag, dims in (("h_0_n", 0), ("h_c_n", 0)):
        I = ck.new(["utils", "strain"])
        kw = dict(m_c=q(I, "m_c", "mass"), f_orb=q(I, "f_orb", "f"), ecc=q(I, "ecc", "eccp"), n=ints(I, "n"),
                  dist=q(I, "dist", "dist"))

        def dimless():
            r = callm(I, "strain." + tag, **kw)
            ck.rule("%s is a plain dimensionless array" % tag, isinstance(r, Arr) and (r.unit is None or
                    r.unit.dimensionless), "the result carries the unit %r" % getattr(r, "unit", None))
        ck.guarded("%s is a plain dimensionless array" % tag, dimless)
