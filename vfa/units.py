"""Physical units: an SI scale (a term) and exponents of the base dimensions."""
from fractions import Fraction as F
from . import terms as t

BASE = ("m", "kg", "s", "rad")
ZERO4 = (F(0),) * 4


class Unit:
    __slots__ = ("scale", "dims", "name", "bases")

    def __init__(self, scale, dims, name=None, bases=None):
        self.scale, self.dims = scale, tuple(F(d) for d in dims)
        self.name = name
        # symbolic make-up in terms of named units; decompose() flattens it
        self.bases = bases if bases is not None else (((name, F(1)),) if name else ())

    def __mul__(self, o):
        return Unit(t.mul(self.scale, o.scale), [a + b for a, b in zip(self.dims, o.dims)], None,
                    _mb(self.bases, o.bases, 1))

    def __truediv__(self, o):
        return Unit(t.div(self.scale, o.scale), [a - b for a, b in zip(self.dims, o.dims)], None,
                    _mb(self.bases, o.bases, -1))

    def __pow__(self, e):
        e = F(e)
        return Unit(t.power(self.scale, e), [a * e for a in self.dims], None,
                    tuple((n, k * e) for n, k in self.bases if k * e))

    def same_dims(self, o):
        return self.dims == o.dims or self.norad() == o.norad()

    def norad(self):
        return self.dims[:3]

    @property
    def dimensionless(self):
        return not any(self.dims[:3])

    def same(self, o):
        return self.dims == o.dims and self.scale is o.scale

    def __repr__(self):
        if self.name:
            return self.name
        return " ".join("%s^%s" % b if b[1] != 1 else b[0] for b in self.bases) or "dimensionless"


def _mb(a, b, s):
    d = dict(a)
    for n, k in b:
        d[n] = d.get(n, F(0)) + s * k
    return tuple(sorted((n, k) for n, k in d.items() if k))


def _u(name, scale, *dims):
    return Unit(scale if isinstance(scale, t.T) else t.num(scale), dims, name)


ONE = Unit(t.ONEN, ZERO4, None, ())
_PREF = {"": F(1), "k": F(10)**3, "M": F(10)**6, "G": F(10)**9, "m": F(1, 10**3), "u": F(1, 10**6),
         "n": F(1, 10**9), "T": F(10)**12, "c": F(1, 100), "d": F(1, 10), "da": F(10), "h": F(100)}
AU_M = F(149597870700)
PC_M = F("3.085677581491367e16")
MSUN_KG = F("1.988409870698051e30")
RSUN = F(695700000)
TABLE = {}


def _def(names, scale, dims, prefixes=("",)):
    for p in prefixes:
        for n in names:
            sc = t.mul(t.num(_PREF[p]), scale) if isinstance(scale, t.T) else t.num(_PREF[p] * scale)
            TABLE[p + n] = Unit(sc, dims, p + n)


_def(["m"], F(1), (1, 0, 0, 0), ("", "k", "c", "m", "u", "n", "M", "G"))
_def(["g"], F(1, 1000), (0, 1, 0, 0), ("", "k"))
_def(["s"], F(1), (0, 0, 1, 0), ("", "k", "m", "u", "M", "G"))
_def(["Hz"], F(1), (0, 0, -1, 0), ("", "k", "m", "u", "n", "M", "G"))
_def(["rad"], F(1), (0, 0, 0, 1), ("", "m"))
TABLE["deg"] = Unit(t.mul(t.PI, t.num(F(1, 180))), (0, 0, 0, 1), "deg")
TABLE["hourangle"] = Unit(t.mul(t.PI, t.num(F(1, 12))), (0, 0, 0, 1), "hourangle")
TABLE["arcsec"] = Unit(t.mul(t.PI, t.num(F(1, 180 * 3600))), (0, 0, 0, 1), "arcsec")
TABLE["arcmin"] = Unit(t.mul(t.PI, t.num(F(1, 180 * 60))), (0, 0, 0, 1), "arcmin")
_def(["yr", "a"], F(31557600), (0, 0, 1, 0), ("", "k", "M", "G"))
TABLE["year"] = TABLE["yr"]
for n, v in (("min", 60), ("h", 3600), ("hr", 3600), ("hour", 3600), ("minute", 60), ("d", 86400),
             ("day", 86400), ("week", 604800), ("fortnight", 1209600), ("second", 1)):
    TABLE[n] = Unit(t.num(v), (0, 0, 1, 0), n)
_def(["pc"], PC_M, (1, 0, 0, 0), ("", "k", "M", "G", "m"))
TABLE["AU"] = TABLE["au"] = Unit(t.num(AU_M), (1, 0, 0, 0), "AU")
TABLE["Rsun"] = TABLE["R_sun"] = TABLE["solRad"] = Unit(t.num(RSUN), (1, 0, 0, 0), "solRad")
TABLE["lyr"] = Unit(t.num(F("9460730472580800")), (1, 0, 0, 0), "lyr")
for n in ("Msun", "M_sun", "solMass"):
    TABLE[n] = Unit(t.num(MSUN_KG), (0, 1, 0, 0), "solMass")
for n in ("Mjup", "M_jup", "jupiterMass"):
    TABLE[n] = Unit(t.num(F("1.8981245973360505e27")), (0, 1, 0, 0), "jupiterMass")
for n in ("Mearth", "M_earth", "earthMass"):
    TABLE[n] = Unit(t.num(F("5.972167867791379e24")), (0, 1, 0, 0), "earthMass")
TABLE["N"] = Unit(t.ONEN, (1, 1, -2, 0), "N")
TABLE["J"] = Unit(t.ONEN, (2, 1, -2, 0), "J")
TABLE["W"] = Unit(t.ONEN, (2, 1, -3, 0), "W")
TABLE["erg"] = Unit(t.num(F(1, 10**7)), (2, 1, -2, 0), "erg")
TABLE["percent"] = Unit(t.num(F(1, 100)), ZERO4, "percent")
TABLE["dimensionless_unscaled"] = TABLE["one"] = ONE
TABLE["radian"] = TABLE["rad"]
TABLE["degree"] = TABLE["deg"]
TABLE["meter"] = TABLE["m"]
TABLE["parsec"] = TABLE["pc"]
TABLE["hertz"] = TABLE["Hz"]
SI = {"m": TABLE["m"], "kg": TABLE["kg"], "s": TABLE["s"], "rad": TABLE["rad"]}


def si(dims):
    """the SI unit of given dimensions"""
    r = ONE
    for n, d in zip(BASE, dims):
        if d:
            r = r * SI[n] ** d
    return Unit(t.ONEN, dims, None, r.bases)
