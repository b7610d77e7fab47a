"""Hash-consed value-flow terms with an algebraic canonical form.

Every abstract value computed by the analyser is a node of one shared DAG.  Construction normalises, so that
two nodes are the same object whenever the canonical form can show that they denote the same value (global
value numbering).  Arrays are written in index notation: a node may mention the index variable of an axis, and
reductions bind it.
"""
from fractions import Fraction as F
import itertools

_table = {}
_ids = itertools.count(1)
CUR_LOC = [None]          # (file, line, function) of the construct being interpreted


class T:
    __slots__ = ("op", "args", "id", "ax", "top", "loc", "sgn", "isint", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


class Axis:
    __slots__ = ("kind", "data", "name", "id")
    _tab = {}
    _c = itertools.count(1)

    def __repr__(self):
        return self.name


def _mkaxis(kind, data, name):
    k = (kind, data)
    a = Axis._tab.get(k)
    if a is None:
        a = Axis()
        a.kind, a.data, a.name, a.id = kind, data, name, next(Axis._c)
        Axis._tab[k] = a
    return a


ONE = _mkaxis("one", None, "1")


AXSIZE = {}


def axis_sym(name, lo=1):
    """A symbolic axis: any number of entries (at least lo)."""
    AXSIZE.setdefault(name, lo)
    return _mkaxis("sym", name, name)


def axis_sub(parent, mask):
    if parent.kind == "sub":
        return axis_sub(parent.data[0], and_(parent.data[1], mask))
    if mask is TRUE:
        return parent
    return _mkaxis("sub", (parent, mask), "%s[m%d]" % (parent.name, mask.id))


def axis_alias(a):
    """a second index variable over the same entries"""
    o, k = (a.data if a.kind == "alias" else (a, 0))
    return _mkaxis("alias", (o, k + 1), "%s'" % a.name)


def axis_flat(axes):
    axes = tuple(a for a in axes if a is not ONE)
    out = []
    for a in axes:
        if a.kind == "flat":
            out.extend(a.data)
        else:
            out.append(a)
    if not out:
        return ONE
    if len(out) == 1:
        return out[0]
    return _mkaxis("flat", tuple(out), "flat(%s)" % ",".join(a.name for a in out))


def axis_size(t):
    """The axis whose number of entries is the value of term ``t``."""
    if t.op == "size":
        return t.args[0]
    if t.op == "count":
        return axis_sub(t.args[0], t.args[1])
    if t.op == "num" and t.args[0] == 1:
        return ONE
    if t.op == "poly" and len(t.args) == 1 and t.args[0][0] == 1:
        # product of sizes -> flat axis
        mono = t.args[0][1]
        if all(e == 1 and a.op in ("size", "count") for a, e in mono) and len(mono) > 1:
            return _mkaxis("n", t, "n%d" % t.id)
    return _mkaxis("n", t, "<%s>" % show(t))


def size_of(ax):
    if ax is ONE:
        return num(1)
    if ax.kind == "n":
        return ax.data
    if ax.kind == "alias":
        return size_of(ax.data[0])
    if ax.kind == "sub":
        return reduce_("count", ax.data[0], ax.data[1])
    if ax.kind == "flat":
        r = num(1)
        for a in ax.data:
            r = mul(r, size_of(a))
        return r
    return mk("size", ax)


def base_axes(ax):
    """index variables that an element over this axis mentions"""
    if ax is ONE:
        return ()
    if ax.kind == "sub":
        return base_axes(ax.data[0])
    if ax.kind == "flat":
        r = ()
        for a in ax.data:
            r += base_axes(a)
        return r
    return (ax,)


_BINDERS = {"sum", "prod", "max", "min", "any", "all", "count", "argmax", "argmin", "trapz", "arr", "cumsum",
            "nth", "interp", "rank"}
_FREEPOS = {"rank": (2,), "nth": (2,), "interp": (3, 4, 5), "cumsum": (3,)}     # arguments outside the binding
_E = frozenset()
TOPS = {"top"}


def _collect_ax(a, s):
    if isinstance(a, T):
        s |= a.ax
    elif isinstance(a, tuple):
        for b in a:
            _collect_ax(b, s)


def _axes_of(op, args):
    if op == "idx":
        return frozenset((args[0],))
    if op == "top":
        return _E
    s = set()
    if op in _BINDERS:
        free = _FREEPOS.get(op, ())
        for i, a in enumerate(args):
            if i not in free:
                _collect_ax(a, s)
        b = args[0]
        for x in (b if isinstance(b, tuple) else (b,)):
            s.discard(x)
        for i in free:
            if i < len(args):
                _collect_ax(args[i], s)
    else:
        for a in args:
            _collect_ax(a, s)
    return frozenset(s) if s else _E


def _anytop(args):
    for a in args:
        if isinstance(a, T):
            if a.top:
                return True
        elif isinstance(a, tuple):
            if _anytop(a):
                return True
    return False


def mk(op, *args):
    k = (op,) + args
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.id = op, args, next(_ids)
        t.ax = _axes_of(op, args)
        t.top = op in TOPS or _anytop(args)
        t.loc = CUR_LOC[0]
        t.sgn = None
        t.isint = None
        _table[k] = t
    return t


# ------------------------------------------------------------------ constants and symbols
def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("spec", repr(v))
        v = F(repr(v))
    return mk("num", F(v))


TRUE = mk("bool", True)
FALSE = mk("bool", False)
ZERO, ONEN, TWO = num(0), num(1), num(2)
INF = mk("spec", "inf")
NAN = mk("spec", "nan")
PI = mk("cst", "pi")
G = mk("cst", "G")
C = mk("cst", "c")
KNOWN_POS = set()


class Decl:
    """Declaration of a symbolic input: name, sign knowledge, sampling domain"""
    __slots__ = ("name", "sgn", "dom", "isint", "isbool")

    def __init__(self, name, sgn=None, dom=None, isint=False, isbool=False):
        self.name, self.sgn, self.dom, self.isint, self.isbool = name, sgn, dom, isint, isbool

    def __repr__(self):
        return self.name


_decls = {}


def sym(name, axes=(), sgn=None, dom=None, isint=False, isbool=False):
    if sgn == "nn":
        sgn = "n"
    k = (name, sgn, dom, isint, isbool)
    d = _decls.get(k)
    if d is None:
        d = _decls[k] = Decl(name, sgn, dom, isint, isbool)
    return mk("sym", d, *[mk("idx", a) for a in axes])


_topc = itertools.count(1)


def top(why, key=None):
    """An unknown value.  With a key, the same unknown each time."""
    return mk("top", why, key if key is not None else next(_topc))


# ------------------------------------------------------------------ sign knowledge
def sgn(t):
    """'p' strictly positive, 'n' >= 0, None unknown"""
    if t.sgn is None:
        t.sgn = _sgn(t) or "?"
    return None if t.sgn == "?" else t.sgn


def _sgn(t):
    op = t.op
    if t in KNOWN_POS:
        return "p"
    if op == "num":
        return "p" if t.args[0] > 0 else ("n" if t.args[0] == 0 else None)
    if op == "cst":
        return "p"
    if op == "spec":
        return "p" if t.args[0] == "inf" else None
    if op == "sym":
        return t.args[0].sgn
    if op == "idx":
        return "n"
    if op in ("size",):
        return "p"
    if op in ("argmax", "argmin"):
        return "n"
    if op == "count":
        return "n"
    if op == "fn" and t.args[0] in ("exp", "powc"):
        return "p"
    if op == "fn" and t.args[0] == "abs":
        return "n"
    if op == "inv":
        return sgn(t.args[0]) and "p"
    if op == "pw":
        return "n" if t.args[1].denominator % 2 == 0 else sgn(t.args[0]) and "n"
    if op == "poly":
        best = "n"
        if any(c < 0 for c, m in t.args):
            return "p" if _below_one(t) else None
        for c, m in t.args:
            s = "p"
            for a, e in m:
                sa = sgn(a)
                if sa is None:
                    if e.denominator == 1 and e.numerator % 2 == 0:
                        sa = "n"
                    else:
                        return None
                if sa == "n":
                    s = "n"
            if s == "p":
                best = "p"
        return best
    if op == "ite":
        a, b = sgn(t.args[1]), sgn(t.args[2])
        if a and b:
            return "p" if a == b == "p" else "n"
        return None
    if op in ("sum", "max", "min"):
        return "n" if sgn(t.args[2]) else None
    if op == "app":
        return t.args[1]
    if op == "minmax":
        ss = [sgn(x) for x in t.args[1]]
        if t.args[0] == "max":
            return "p" if "p" in ss else ("n" if "n" in ss else None)
        if all(ss):
            return "p" if all(s == "p" for s in ss) else "n"
        return None
    if op == "tab":
        ss = [sgn(x) for x in t.args[0]]
        if all(ss):
            return "p" if all(s == "p" for s in ss) else "n"
    return None


def _below_one(t):
    """is this sum positive because its symbols lie in [0, 1)?"""
    lo, open_ = F(0), False
    for c, m in t.args:
        if not m:
            lo += c
        elif c > 0:
            if any(not sgn(a) for a, e in m):
                return False
        else:
            for a, e in m:
                if a.op != "sym" or e <= 0 or not a.args[0].dom or a.args[0].dom[0] == "choice" or \
                        a.args[0].dom[0] < 0 or a.args[0].dom[1] >= 1 or not a.args[0].sgn:
                    return False
            lo += c
            open_ = True
    return lo > 0 or lo == 0 and open_


def isint(t):
    if t.isint is None:
        t.isint = _isint(t)
    return t.isint


def _isint(t):
    op = t.op
    if op == "num":
        return t.args[0].denominator == 1
    if op == "sym":
        return t.args[0].isint
    if op in ("idx", "size", "count", "argmax", "argmin"):
        return True
    if op == "fn":
        return t.args[0] in ("floor", "ceil", "trunc", "round", "idiv", "imod")
    if op == "poly":
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and isint(a) for a, e in m)
                   for c, m in t.args)
    if op == "ite":
        return isint(t.args[1]) and isint(t.args[2])
    if op in ("sum", "max", "min"):
        return isint(t.args[2])
    if op == "minmax":
        return all(isint(x) for x in t.args[1])
    if op == "tab":
        return all(isint(x) for x in t.args[0])
    if op == "appi":
        return True
    return False


# ------------------------------------------------------------------ polynomials
_MAXTERMS = 40


def to_poly(t):
    """dict mono -> coef; mono is a tuple of (atom, exponent)"""
    if t.op == "num":
        v = t.args[0]
        return {(): v} if v else {}
    if t.op == "poly":
        return {m: c for c, m in t.args}
    return {((t, F(1)),): F(1)}


def from_poly(p):
    items = [(m, c) for m, c in p.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: [(a.id, e) for a, e in mc[0]])
    return mk("poly", *[(c, m) for m, c in items])


def _bool2num(t):
    if t is TRUE:
        return ONEN
    if t is FALSE:
        return ZERO
    if is_bool(t):
        return mk("ite", t, ONEN, ZERO)
    return t


BOOLOPS = {"lt0", "eq0", "and", "or", "not", "bool", "any", "all", "bapp", "isnan", "seq"}


def is_bool(t):
    if t.op in BOOLOPS:
        return True
    if t.op == "sym":
        return t.args[0].isbool
    if t.op == "ite":
        return is_bool(t.args[1])
    if t.op == "tab":
        return all(is_bool(x) for x in t.args[0])
    return False


def add(*ts):
    r = {}
    spec = None
    for t in ts:
        t = _bool2num(t)
        if t.op == "spec":
            spec = t if spec is None or spec is t else NAN
            continue
        for m, c in to_poly(t).items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if spec is not None:
        if not r or all(not m for m in r):
            return spec
        return mk("fn", "addspec", (spec, from_poly(r)))
    return from_poly(r)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


_primes_cache = {}


def _factor(n):
    """trial-division factors of a positive int (bounded)"""
    if n in _primes_cache:
        return _primes_cache[n]
    orig = n
    f = {}
    for p in itertools.chain((2, 3, 5, 7, 11, 13), range(17, 2000, 2)):
        if p * p > n:
            break
        while n % p == 0:
            f[p] = f.get(p, 0) + 1
            n //= p
    if n > 1:
        f[n] = f.get(n, 0) + 1
    _primes_cache[orig] = f
    return f


def _monomul(a, b):
    d = {}
    for t, e in a:
        d[t] = e
    for t, e in b:
        d[t] = d.get(t, 0) + e
    coef = F(1)
    out = []
    extra = []
    for t, e in d.items():
        if e == 0:
            continue
        if t.op == "num":
            # prime with a fractional exponent: keep the exponent in [0, 1)
            k = e.numerator // e.denominator
            if k:
                coef *= F(t.args[0]) ** k
                e -= k
            if e == 0:
                continue
        elif t.op == "poly" and e.denominator == 1 and e > 0:
            extra.append((t, e))
            continue
        elif t.op == "pw" and (t.args[1] * e).denominator == 1 and e.denominator == 1 and e != 1:
            # (x^p)^k with an integral total exponent
            extra.append((power(t.args[0], t.args[1] * e), F(1)))
            continue
        elif t.op == "ite" and e > 0 and e != 1 and _half(t, e):
            extra.append((power(t, e), F(1)))
            continue
        elif t.op == "inv" and e.denominator == 1 and t.args[0].op == "poly":
            p = power(t.args[0], F(-1))
            if p is not t:
                extra.append((power(t.args[0], -e), F(1)))
                continue
        out.append((t, e))
    out.sort(key=lambda x: x[0].id)
    return coef, tuple(out), extra


def mul(*ts):
    ts = [_bool2num(t) for t in ts]
    r = {(): F(1)}
    for t in ts:
        if t.op == "spec":
            rest = [x for x in ts if x is not t]
            return _mulspec(t, rest)
    for t in ts:
        p = to_poly(t)
        if len(p) > 1 and len(r) > 1 and len(p) * len(r) > _MAXTERMS:
            # keep factored: treat as opaque factors
            ra, pa = _opaque(from_poly(r)), _opaque(t)
            r = to_poly(_mono_product(ra, pa))
            continue
        if len(p) > 1 and len(r) == 1 or len(r) > 1 and len(p) == 1:
            many, one = (p, r) if len(p) > 1 else (r, p)
            q = _absorb(many, one)
            if q is not None:
                r = q
                continue
        new = {}
        for m1, c1 in r.items():
            for m2, c2 in p.items():
                c, m, extra = _monomul(m1, m2)
                if extra:
                    v = mk_mono(c * c1 * c2, m)
                    for x, e in extra:
                        for _ in range(int(e)):
                            v = mul(v, x)
                    for mm, cc in to_poly(v).items():
                        s = new.get(mm, 0) + cc
                        if s:
                            new[mm] = s
                        else:
                            new.pop(mm, None)
                    continue
                s = new.get(m, 0) + c * c1 * c2
                if s:
                    new[m] = s
                else:
                    new.pop(m, None)
        r = new
    return from_poly(r)


def _absorb(many, one):
    """a sum times a monomial in which a negative power of that sum is a factor: one power"""
    (m, c), = one.items()
    for a, e in m:
        base = a.args[0] if a.op == "fac" else a
        if base.op == "poly" and e < 0 and len(base.args) == len(many) and sgn(base) == "p":
            f = to_poly(base)
            m0, c0 = next(iter(f.items()))
            for mm, cc in many.items():
                d = dict(mm)
                for x, k in m0:
                    d[x] = d.get(x, 0) - k
                    if not d[x]:
                        del d[x]
                if any(k < 0 and sgn(x) != "p" for x, k in d.items()):
                    continue
                q = tuple(sorted(d.items(), key=lambda p: p[0].id))
                c1 = cc / c0
                if all(many.get(_shift(x, q)) == y * c1 for x, y in f.items()):
                    rest = tuple((x, k) for x, k in m if x is not a)
                    v = mul(mk_mono(c * c1, q), mk_mono(F(1), rest))
                    if e != -1:
                        v = mul(v, mk_mono(F(1), ((a, e + 1),)) if e < -1 else power(base, e + 1))
                    return to_poly(v)
    return None


def _shift(m, q):
    d = dict(m)
    for x, k in q:
        d[x] = d.get(x, 0) + k
        if not d[x]:
            del d[x]
    return tuple(sorted(d.items(), key=lambda p: p[0].id))


def _opaque(t):
    if t.op == "poly" and len(t.args) > 1:
        return mk("fac", t)
    return t


def _mono_product(a, b):
    (ma, ca), = to_poly(a).items()
    (mb, cb), = to_poly(b).items()
    c, m, extra = _monomul(ma, mb)
    v = mk_mono(c * ca * cb, m)
    for x, e in extra:
        v = _mono_product(v, _opaque(power(x, e)))
    return v


def mk_mono(c, m):
    return from_poly({m: c}) if c else ZERO


def _mulspec(s, rest):
    if s.args[0] == "nan":
        return NAN
    k = num(1)
    for r in rest:
        if r.op == "spec":
            continue
        k = mul(k, r)
    if sgn(k) == "p":
        return s
    if k.op == "num" and k.args[0] < 0 and s.args[0] == "inf":
        return mk("spec", "-inf")
    if k.op == "num" and k.args[0] < 0 and s.args[0] == "-inf":
        return INF
    if k is ZERO:
        return NAN
    return mk("fn", "mulspec", (s, k))


def power(b, e):
    """b ** e with e a Fraction or a term"""
    b = _bool2num(b)
    if isinstance(e, T):
        e = _bool2num(e)
        if e.op != "num":
            if b.op == "num" and b.args[0] > 0:
                if b.args[0] == 1:
                    return ONEN
                return mk("fn", "powc", (b, e))
            return mk("fn", "pow", (b, e))
        e = e.args[0]
    e = F(e)
    if e == 0:
        return ONEN
    if e == 1:
        return b
    if b.op == "num":
        v = b.args[0]
        if e.denominator == 1:
            if v == 0:
                return ZERO if e > 0 else INF
            if abs(e) < 3000:
                return num(v ** int(e))
        if v == 0:
            return ZERO if e > 0 else INF
        if v < 0:
            return NAN
        if abs(e) < 400:
            coef, mono = F(1), {}
            for n, s in ((v.numerator, 1), (v.denominator, -1)):
                if n == 1:
                    continue
                for p, k in _factor(n).items():
                    mono[p] = mono.get(p, 0) + s * k * e
            items = []
            for p, k in mono.items():
                w = k.numerator // k.denominator
                coef *= F(p) ** w
                k -= w
                if k:
                    items.append((num(p), k))
            items.sort(key=lambda x: x[0].id)
            return mk_mono(coef, tuple(items))
        return mk("pw", b, e)
    if b.op == "fn" and b.args[0] == "powc":
        return fn_powc(b.args[1][0], mul(b.args[1][1], num(e)))
    if b.op == "spec":
        if b.args[0] == "inf":
            return INF if e > 0 else ZERO
        if b.args[0] == "nan":
            return NAN
        return mk("pw", b, e)
    if b.op == "poly":
        if len(b.args) == 1:
            c, m = b.args[0]
            return _monopow(c, m, e)
        # a sum: integer powers expand when small
        if e.denominator == 1 and 0 < e <= 8:
            k = len(b.args)
            n = int(e)
            # number of monomials of (k terms)^n
            cnt = 1
            for i in range(n):
                cnt = cnt * (k + i) // (i + 1)
            if cnt <= _MAXTERMS:
                r = b
                for _ in range(n - 1):
                    r = mul(r, b)
                return r
            return mk_mono(F(1), ((mk("fac", b), e),))
        # common factors of the summands come out of the power
        common = None
        for c, m in b.args:
            d = {a: k for a, k in m if e.denominator == 1 or sgn(a) == "p" or a.op == "num" and a.args[0] > 0
                 or sgn(a) == "n" and k > 0 and e > 0}
            if common is None:
                common = d
            else:
                common = {a: min(common.get(a, 0), d.get(a, 0)) for a in {**common, **d}}
        if common:
            common = {a: k for a, k in common.items() if k > 0 or sgn(a) != "n" or e.denominator == 1}
            mono = tuple(sorted(((a, k) for a, k in common.items() if k), key=lambda p: p[0].id))
            if mono:
                inv = mk_mono(F(1), tuple((a, -k) for a, k in mono))
                rest = mul(b, inv)
                if rest.op == "poly" and len(rest.args) == len(b.args):
                    return mul(_monopow(F(1), mono, e), power(rest, e))
        # normalise content
        cont, prim = content(b)
        if cont != 1:
            return mul(power(num(cont), e), power(prim, e))
        root = _square_root(b)
        if root is not None and (sgn(root) or e.denominator == 1):
            return power(root, 2 * e)
        two = _linear_factor(b)
        if two is not None and (e.denominator == 1 or sgn(two[0]) and sgn(two[1])):
            return mul(power(two[0], e), power(two[1], e))
        return _atompow(b, e)
    if b.op == "ite" and e > 0 and _half(b, e):
        return ite(b.args[0], power(b.args[1], e), power(b.args[2], e))
    return _atompow(b, e)


def _half(t, e):
    """a quantity that is zero unless a condition holds, whose powers are taken inside"""
    return ZERO in t.args[1:] and (e.denominator == 1 or all(sgn(x) for x in t.args[1:]))


_LIN = {}


def _linear_factor(b):
    """(x + r, q) with (x + r) * q == b for an atom x of degree one and a monomial r, or None"""
    if b.id in _LIN:
        return _LIN[b.id]
    res = None
    if 4 <= len(b.args) <= 64 and len(b.args) % 2 == 0:
        p = {m: c for c, m in b.args}
        half = len(b.args) // 2
        cnt = {}
        for m in p:
            for a, k in m:
                d = cnt.setdefault(a, [0, True])
                d[0] += 1
                d[1] = d[1] and k == 1
        for x in sorted((a for a, d in cnt.items() if d[0] == half and d[1]), key=lambda a: a.id):
            lo = from_poly({m: c for m, c in p.items() if all(a is not x for a, _ in m)})
            hi = from_poly({tuple(f for f in m if f[0] is not x): c for m, c in p.items() if any(a is x for a, _ in m)})
            for c1, m1 in lo.args:
                c0, m0 = hi.args[0]
                r = mul(mk_mono(c1 / c0, m1), _plain_inv(m0))
                if mul(r, hi) is lo:
                    res = (add(x, r), hi)
                    break
            if res:
                break
    _LIN[b.id] = res
    return res


def _plain_inv(m):
    return mk_mono(F(1), tuple((a, -k) for a, k in m))


_ROOTS = {}


def _square_root(b):
    """q with q * q == b for a sum b, or None"""
    if b.id in _ROOTS:
        return _ROOTS[b.id]
    r = None
    if 3 <= len(b.args) <= 21:
        p = {m: c for c, m in b.args}
        atoms = sorted({a for m in p for a, _ in m}, key=lambda a: a.id)
        vec = {m: tuple(dict((a.id, k) for a, k in m).get(a.id, F(0)) for a in atoms) for m in p}
        lead, last = max(p, key=vec.get), min(p, key=vec.get)
        if all(_rational_root(p[m]) is not None for m in (lead, last)) and all(
                k % 2 == 0 for m in (lead, last) for k in vec[m] if k.denominator == 1):
            r = _try_root(b, mk_mono(_rational_root(p[lead]), tuple((a, k / 2) for a, k in lead)), atoms)
    _ROOTS[b.id] = r
    return r


def _rational_root(c):
    from math import isqrt
    if c <= 0:
        return None
    n, d = isqrt(c.numerator), isqrt(c.denominator)
    return F(n, d) if n * n == c.numerator and d * d == c.denominator else None


def _try_root(b, lead, atoms):
    q = lead
    for _ in range(6):
        rest = sub(b, mul(q, q))
        if rest.op == "num":
            if rest.args[0] == 0:
                return q
        p = to_poly(rest)
        vec = {m: tuple(dict((a.id, k) for a, k in m).get(a.id, F(0)) for a in atoms) for m in p}
        m = max(p, key=vec.get)
        q = add(q, mul(mk_mono(p[m] / 2, m), power(lead, F(-1))))
    return None


def fn_powc(base, x):
    return power(base, x)


def content(b):
    """positive rational content and primitive part"""
    from math import gcd
    n = 0
    d = 1
    for c, m in b.args:
        n = gcd(n, abs(c.numerator))
        d = d * c.denominator // gcd(d, c.denominator)
    cont = F(n, d)
    if cont == 1:
        return F(1), b
    return cont, from_poly({m: c / cont for c, m in b.args})


def _atompow(a, e):
    """a ** e for an indivisible a"""
    if a.op == "ite" and False:
        pass
    s = sgn(a)
    if a.op == "inv":
        if e > 0:
            return mk_mono(F(1), ((a, e),))
        return power(a.args[0], -e)
    if a.op == "pw":
        if sgn(a.args[0]) or (a.args[1].denominator == 1 and a.args[1].numerator % 2 == 1):
            return power(a.args[0], a.args[1] * e)
        # both sides are undefined for a negative base
        if (a.args[1] * e).denominator != 1 and a.args[1].denominator != 1:
            return power(a.args[0], a.args[1] * e)
        return mk_mono(F(1), ((a, e),)) if e > 0 else mk_mono(F(1), ((mk("inv", a), -e),))
    if e < 0 and s != "p":
        return mk_mono(F(1), ((mk("inv", a), -e),))
    if e.denominator != 1 and s is None:
        return mk("pw", a, e)
    return mk_mono(F(1), ((a, e),))


def _monopow(c, m, e):
    """(c * mono) ** e"""
    if e.denominator == 1:
        r = num(c ** int(e)) if abs(e) < 3000 else power(num(c), e)
        for a, k in m:
            if a.op == "num":
                r = mul(r, power(power(a, k) if k.denominator == 1 else mk_mono(F(1), ((a, k),)), e)
                        if k.denominator == 1 else _primepow(a, k * e))
            else:
                if e < 0:
                    r = mul(r, _atompow(a, k * e) if (k == 1 or sgn(a) or a.op == "inv") else
                            mk_mono(F(1), ((mk("inv", a), -k * e),)))
                else:
                    r = mul(r, mk_mono(F(1), ((a, k * e),)) if a.op not in ("poly",) else power(a, k * e))
        return r
    # fractional: split off factors known to be non-negative
    good = []
    rest = []
    for a, k in m:
        if a.op == "num":
            good.append(_primepow(a, k * e))
        elif sgn(a):
            good.append(_atompow(a, k * e))
        else:
            rest.append((a, k))
    if c > 0:
        good.append(power(num(c), e))
        c = F(1)
    if not rest:
        if c == 1:
            return mul(*good) if good else ONEN
        return NAN
    if abs(c) != 1:
        good.append(power(num(abs(c)), e))
        c = F(-1)
    inner = mk_mono(c, tuple(rest))
    if len(rest) == 1 and c == 1 and rest[0][1].denominator == 1 and rest[0][1].numerator % 2 == 1:
        a, k = rest[0]
        good.append(_atompow(a, k * e))
        return mul(*good)
    good.append(mk("pw", inner, e))
    return mul(*good)


def _primepow(a, e):
    k = e.numerator // e.denominator
    r = e - k
    return mk_mono(F(a.args[0]) ** k, ((a, r),) if r else ())


def div(a, b):
    return mul(a, power(b, F(-1)))


# ------------------------------------------------------------------ functions
def fn(name, *args):
    args = tuple(_bool2num(a) for a in args)
    a = args[0]
    if name == "sqrt":
        return power(a, F(1, 2))
    if name == "abs":
        if sgn(a):
            return a
        if a.op == "num":
            return num(abs(a.args[0]))
        if a.op == "poly":
            k, a1 = content(a) if len(a.args) > 1 else (a.args[0][0], mk_mono(F(1), a.args[0][1]))
            if abs(k) != 1:
                return mul(num(abs(k)), fn("abs", a1))
    if name in ("floor", "ceil", "trunc", "round"):
        if isint(a):
            return a
        if a.op == "num":
            import math
            v = a.args[0]
            return num({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": round}[name](v))
    if name == "idiv" and args[1] is ONEN:
        return a
    if name == "exp" and a is ZERO:
        return ONEN
    if name in ("sin", "tanh", "arctan", "arcsin") and a is ZERO:
        return ZERO
    if name == "cos" and a is ZERO:
        return ONEN
    if name in ("sin", "tanh", "arctan", "arcsin", "sinh") and _negative_lead(a):
        return neg(mk("fn", name, (neg(a),)))
    if name in ("cos", "cosh", "abs") and _negative_lead(a):
        return mk("fn", name, (neg(a),))
    if name in ("sin", "cos") and a.op == "poly" and len(a.args) == 1 and a.args[0][0].denominator == 1 and \
            a.args[0][0] % 2 == 0:
        h = mul(num(F(1, 2)), a)
        if name == "cos":
            return sub(mul(num(2), power(fn("cos", h), 2)), ONEN)
        return mul(num(2), fn("sin", h), fn("cos", h))
    if name == "log10" and a.op == "num" and a.args[0] > 0:
        v = a.args[0]
        k = 0
        while v >= 10 and k < 60:
            v /= 10
            k += 1
        while v < 1 and k > -60:
            v *= 10
            k -= 1
        if v == 1:
            return num(k)
        if k:
            return add(num(k), mk("fn", "log10", (num(v),)))
    if name == "log10" and a.op == "poly" and len(a.args) == 1 and a.args[0][0] > 0 and a.args[0][0] != 1:
        c, m = a.args[0]
        return add(fn("log10", num(c)), fn("log10", mk_mono(F(1), m)))
    return mk("fn", name, args)


def _negative_lead(a):
    if a.op == "num":
        return a.args[0] < 0
    if a.op == "poly":
        return a.args[0][0] < 0
    return False


def minmax(kind, *ts):
    s = []
    for t in ts:
        t = _bool2num(t)
        if t.op == "minmax" and t.args[0] == kind:
            s.extend(t.args[1])
        else:
            s.append(t)
    s = sorted(set(s), key=lambda t: t.id)
    nums = [t for t in s if t.op == "num"]
    if len(nums) > 1:
        v = (max if kind == "max" else min)(t.args[0] for t in nums)
        s = sorted([t for t in s if t.op != "num"] + [num(v)], key=lambda t: t.id)
    if len(s) == 1:
        return s[0]
    return mk("minmax", kind, tuple(s))


# ------------------------------------------------------------------ booleans
def lt(a, b):
    """a < b"""
    a, b = _bool2num(a), _bool2num(b)
    if a is b:
        return FALSE
    if a.op == "spec" or b.op == "spec":
        va = a.args[0] if a.op == "spec" else None
        vb = b.args[0] if b.op == "spec" else None
        if "nan" in (va, vb):
            return FALSE
        if va == "inf" or vb == "-inf":
            return FALSE
        return TRUE
    d = sub(a, b)
    return lt0(d)


def lt0(d):
    if d.op == "num":
        return TRUE if d.args[0] < 0 else FALSE
    if sgn(d):
        return FALSE
    if d.op == "poly":
        _, d = content(d)
        d = _strip_pos(d)
        if d.op != "poly":
            return lt0(d)
        n = neg(d)
        if sgn(n) == "p":
            return TRUE
        if sgn(n) == "n" and isint(n):
            return not_(eq(n, ZERO))
        if len(d.args) == 2:
            # fewer than one entry: none
            (c0, m0), (c1, m1) = sorted(d.args, key=lambda p: len(p[1]))
            if not m0 and len(m1) == 1 and m1[0][1] == 1 and m1[0][0].op == "count":
                if c1 > 0 and 0 < -c0 / c1 <= 1:
                    return not_(reduce_("any", m1[0][0].args[0], m1[0][0].args[1]))
                if c1 < 0 and 0 <= c0 / -c1 < 1:
                    return reduce_("any", m1[0][0].args[0], m1[0][0].args[1])
        # a gate with a constant branch that settles the comparison
        gates = [m[0][0] for c, m in d.args if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite"]
        if len(gates) == 1 and sum(1 for c, m in d.args for a, e in m if a is gates[0]) == 1:
            g = gates[0]
            for k in (1, 2):
                if g.args[k].op == "num":
                    v = lt0(_swap(d, g, g.args[k]))
                    if v is TRUE or v is FALSE:
                        w = lt0(_swap(d, g, g.args[3 - k]))
                        c = g.args[0] if k == 1 else not_(g.args[0])
                        return or_(c, w) if v is TRUE else and_(not_(c), w)
    return mk("lt0", d)


def _swap(d, g, v):
    return add(*[mul(num(c), v) if m == ((g, F(1)),) else mk_mono(c, m) for c, m in d.args])


def _strip_pos(d):
    """divide by factors (common to every monomial) that are strictly positive: the sign is unchanged"""
    if d.op != "poly":
        return d
    common = None
    for c, m in d.args:
        mm = {a: e for a, e in m if sgn(a) == "p"}
        if common is None:
            common = mm
        else:
            common = {a: min(e, mm[a]) for a, e in common.items() if a in mm}
        # exponents missing count as 0: allow only common ones
    if not common:
        # also clear negative exponents of positive atoms
        common = {}
    negs = {}
    for c, m in d.args:
        for a, e in m:
            if e < 0 and sgn(a) == "p" and a.op != "num":
                negs[a] = min(negs.get(a, 0), e)
    f = ONEN
    for a, e in common.items():
        if a.op != "num" and e != 0:
            f = mul(f, _atompow(a, -e))
    for a, e in negs.items():
        if a not in common:
            f = mul(f, _atompow(a, -e))
    if f is ONEN:
        return d
    r = mul(d, f)
    if r.op == "poly":
        r = content(r)[1]
    return r


def le(a, b):
    if a is NAN or b is NAN:
        return FALSE
    return not_(lt(b, a))


def eq(a, b):
    if is_bool(a) and is_bool(b):
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = _bool2num(a), _bool2num(b)
    if a is b:
        return TRUE
    if a.op == "spec" or b.op == "spec":
        if a.op == b.op:
            return FALSE
        o = b if a.op == "spec" else a
        if o.op in ("num", "sym", "cst"):
            return FALSE
        return mk("seq", a, b) if a.id < b.id else mk("seq", b, a)
    d = sub(a, b)
    if d.op == "num":
        return TRUE if d.args[0] == 0 else FALSE
    if sgn(d) == "p" or sgn(neg(d)) == "p":
        return FALSE
    if d.op == "poly":
        _, d = content(d)
        d = _strip_pos(d)
        if d.op == "poly" and d.args[0][0] < 0:
            d = neg(d)
    if d.op == "count":
        return not_(reduce_("any", d.args[0], d.args[1]))
    return mk("eq0", d)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", a)


def _flat(op, ts):
    s = {}
    for t in ts:
        if t.op == op:
            for x in t.args:
                s[x] = 1
        else:
            s[t] = 1
    return list(s)


def and_(*ts):
    s = [t for t in _flat("and", [truth(t) for t in ts]) if t is not TRUE]
    if FALSE in s:
        return FALSE
    ss = set(s)
    for t in s:
        if not_(t) in ss:
            return FALSE
    # absorption: a and (not a or b) -> a and b
    out = []
    for t in s:
        if t.op == "not" and t.args[0].op == "and":
            inner = [x for x in t.args[0].args if x not in ss]
            if len(inner) != len(t.args[0].args):
                n = not_(and_(*inner)) if inner else FALSE
                return and_(*([x for x in s if x is not t] + [n]))
        out.append(t)
    out.sort(key=lambda t: t.id)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def or_(*ts):
    return not_(and_(*[not_(truth(t)) for t in ts]))


def truth(t):
    if is_bool(t):
        return t
    if t.op == "num":
        return FALSE if t.args[0] == 0 else TRUE
    if t.op == "spec":
        return TRUE
    if t.op == "ite":
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == "top":
        return mk("bapp", "truth", (t,))
    return not_(eq(t, ZERO))


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    else:
        a, b = _bool2num(a), _bool2num(b)
        if a is b:
            return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    # use what the condition says inside the arms
    a = _assume(a, c, True)
    b = _assume(b, c, False)
    if a is b:
        return a
    if c.op == "eq0":
        xy = _same_syms(c.args[0])
        if xy:
            r = subst(a, {xy[0]: xy[1]})
            if r is b or r is subst(b, {xy[0]: xy[1]}):
                return b
    # ite(any(m), X, Y): where any(m) is false, m is false at every index
    if c.op == "any":
        m = c.args[2]
        if c.args[1] is not TRUE:
            m = and_(m, c.args[1])
        while m.op == "any":
            m = m.args[2] if m.args[1] is TRUE else and_(m.args[2], m.args[1])
        Y = assume_false(b, m)
        X = assume_false(a, m)
        if X is Y:
            return a
    # ite(c, a, ite(d, a, b)) -> ite(c or d, a, b)
    if b.op == "ite" and not is_bool(a):
        if b.args[1] is a:
            return ite(or_(c, b.args[0]), a, b.args[2])
    if is_bool(a) or is_bool(b):
        return or_(and_(c, truth(a)), and_(not_(c), truth(b)))
    return mk("ite", c, a, b)


def _same_syms(d):
    """(x, y) for a difference of two scalar unknowns"""
    if d.op != "poly" or len(d.args) != 2:
        return None
    (c, m), (k, o) = d.args
    if len(m) == len(o) == 1 and c + k == 0 and m[0][1] == o[0][1] == 1:
        x, y = m[0][0], o[0][0]
        if x.op == y.op == "sym" and not x.ax and not y.ax:
            return (x, y) if x.id > y.id else (y, x)
    return None


def _assume(t, c, val):
    """simplify top-level gates of t knowing c == val"""
    n = 0
    lits = {}
    if val and c.op == "and":
        for x in c.args:
            lits[x] = True
    if not val and c.op == "not":
        c, val = c.args[0], True
    lits[c] = val
    while t.op == "ite" and n < 50:
        v = _known(t.args[0], lits)
        if v is None:
            break
        t = t.args[1] if v else t.args[2]
        n += 1
    if t.op == "ite" and n < 50:
        a, b = t.args[1], t.args[2]
        if a.op == "ite" or b.op == "ite":
            a2, b2 = _assume1(a, lits, 6), _assume1(b, lits, 6)
            if a2 is not a or b2 is not b:
                return ite(t.args[0], a2, b2)
    return t


def _assume1(t, lits, d):
    if t.op != "ite" or d == 0:
        return t
    v = _known(t.args[0], lits)
    if v is not None:
        return _assume1(t.args[1] if v else t.args[2], lits, d - 1)
    a, b = _assume1(t.args[1], lits, d - 1), _assume1(t.args[2], lits, d - 1)
    if a is t.args[1] and b is t.args[2]:
        return t
    return ite(t.args[0], a, b)


def _known(c, lits):
    if c in lits:
        return lits[c]
    if c.op == "not":
        v = _known(c.args[0], lits)
        return None if v is None else not v
    if c.op == "and":
        vs = [_known(x, lits) for x in c.args]
        if False in vs:
            return False
        if all(v is True for v in vs):
            return True
        for k, v in lits.items():
            if not v and k.op == "and" and set(k.args) <= set(c.args):
                return False
    return None


def assume_false(t, m):
    """t with the (elementwise) condition m replaced by False at its gates"""
    lits = {m: False}
    if m.op == "not":
        lits = {m.args[0]: True}
    elif m.op == "or":
        pass
    return _assume1(t, lits, 8)


# ------------------------------------------------------------------ reductions
def reduce_(op, ax, body, mask=TRUE):
    """sum/any/all/max/min/... over an axis (possibly masked)"""
    if ax is ONE:
        if op in ("any", "all"):
            return truth(body)
        if op == "argmax":
            return ZERO
        return body
    if ax.kind == "sub":
        return reduce_(op, ax.data[0], body, and_(mask, ax.data[1]))
    if ax.kind == "flat" and op in ("sum", "any", "all", "max", "min", "count"):
        if mask is not TRUE:
            if op in ("any", "count"):
                body = and_(mask, truth(body))
            elif op == "all":
                body = or_(not_(mask), truth(body))
            elif op == "sum":
                body = ite(mask, _bool2num(body), ZERO)
            else:
                body = ite(mask, _bool2num(body), INF if op == "min" else mk("spec", "-inf"))
        if op == "count":
            body, op = ite(truth(body), ONEN, ZERO), "sum"
        for a in reversed(ax.data):
            body = reduce_(op, a, body)
        return body
    if ax.kind == "flat":
        return top("reduction over a flattened axis", (op, ax.id, body.id, mask.id))
    small = ax.kind == "n" and ax.data.op == "num" and 0 < ax.data.args[0] <= 16
    if op == "any" and small:
        body = and_(truth(body), mask)
        return or_(*[subst(body, {ax: num(i)}) for i in range(int(ax.data.args[0]))])
    if op in ("max", "min") and small and mask is TRUE:
        return minmax(op, *[subst(_bool2num(body), {ax: num(i)}) for i in range(int(ax.data.args[0]))])
    if op == "any":
        body = truth(body)
        body = and_(body, mask)
        if body is FALSE:
            return FALSE
        if body is TRUE:
            return TRUE
        if ax not in body.ax:
            return body
        return mk("any", ax, TRUE, body)
    if op == "all":
        return not_(reduce_("any", ax, not_(truth(body)), mask))
    if op == "count":
        m = and_(mask, truth(body))
        if m is FALSE:
            return ZERO
        if m is TRUE:
            return size_of(ax)
        return mk("count", ax, m)
    if op == "sum" and is_bool(body):
        return reduce_("count", ax, body, mask)
    if op == "sum" and body.op == "ite" and body.args[1] is ONEN and body.args[2] is ZERO:
        return reduce_("count", ax, body.args[0], mask)
    body = _bool2num(body)
    # unroll small literal axes
    if ax.kind == "n" and ax.data.op == "num" and op in ("sum",) and mask is TRUE and 0 < ax.data.args[0] <= 16:
        return add(*[subst(body, {ax: num(i)}) for i in range(int(ax.data.args[0]))])
    if op == "sum":
        if body is ZERO:
            return ZERO
        if ax not in body.ax and ax not in mask.ax:
            return mul(body, size_of(ax)) if mask is TRUE else ite(mask, mul(body, size_of(ax)), ZERO)
        # pull factors that do not depend on the axis out of the sum
        if body.op == "poly":
            parts = []
            for c, m in body.args:
                out = [(a, e) for a, e in m if ax not in a.ax]
                inn = [(a, e) for a, e in m if ax in a.ax]
                s = mk("sum", ax, mask, mk_mono(F(1), tuple(inn))) if inn else size_of(
                    ax if mask is TRUE else axis_sub(ax, mask))
                parts.append(mul(num(c), mk_mono(F(1), tuple(out)), s))
            return add(*parts)
        return mk("sum", ax, mask, body)
    if op in ("max", "min"):
        if ax not in body.ax and ax not in mask.ax and mask is TRUE:
            return body
        # pull out positive factors
        if body.op == "poly" and len(body.args) == 1:
            c, m = body.args[0]
            out = [(a, e) for a, e in m if ax not in a.ax and sgn(a) == "p"]
            if c > 0 and (out or c != 1):
                inn = [(a, e) for a, e in m if (a, e) not in out]
                return mul(mk_mono(c, tuple(out)), mk(op, ax, mask, mk_mono(F(1), tuple(inn))))
    if op in ("argmax", "argmin"):
        if ax.kind == "n" and ax.data.op == "num" and mask is TRUE and 0 < ax.data.args[0] <= 64:
            vs = [subst(body, {ax: num(i)}) for i in range(int(ax.data.args[0]))]
            if all(v.op == "num" for v in vs):
                xs = [v.args[0] for v in vs]
                return num(xs.index(max(xs) if op == "argmax" else min(xs)))
        if body.op == "poly":
            if len(body.args) > 1:
                _, body = content(body)
            elif body.args[0][0] > 0:
                body = mk_mono(F(1), body.args[0][1])
            body = _strip_axis_free(body, ax)
    return mk(op, ax, mask, body)


def nth(ax, m, e):
    """index in ax of the e-th place where m holds"""
    if e.op == "rank" and e.args[0] is ax and e.args[1] is m:
        return e.args[2]
    return mk("nth", ax, m, e)


def _strip_axis_free(body, ax):
    if body.op == "poly" and len(body.args) == 1:
        c, m = body.args[0]
        out = [(a, e) for a, e in m if ax not in a.ax and sgn(a) == "p"]
        if out and c > 0:
            return mk_mono(F(1), tuple((a, e) for a, e in m if (a, e) not in out))
    return body


def trapz(ax, y, x):
    return mk("trapz", ax, y, x)


def tab(items, idx):
    """table lookup; idx a term"""
    items = tuple(items)
    if idx.op == "num":
        i = int(idx.args[0])
        if -len(items) <= i < len(items):
            return items[i]
        return top("index out of range")
    if all(i is items[0] for i in items):
        return items[0]
    return mk("tab", items, idx)


# ------------------------------------------------------------------ substitution of axis indices / terms
def subst(t, env, memo=None):
    """replace index variables: env maps Axis -> term (or T -> T for whole nodes)"""
    if memo is None:
        memo = {}
    keys = frozenset(k for k in env if isinstance(k, Axis))
    nodes = {k: v for k, v in env.items() if isinstance(k, T)}
    return _subst(t, env, keys, nodes, memo)


def _subst(t, env, keys, nodes, memo):
    if not nodes and not (t.ax & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in nodes:
        r = nodes[t]
    else:
        r = _rebuild(t, env, keys, nodes, memo)
    memo[t] = r
    return r


def _rebuild(t, env, keys, nodes, memo):
    op = t.op

    def S(x):
        return _subst(x, env, keys, nodes, memo)
    if op == "idx":
        return env.get(t.args[0], t)
    if op in ("num", "cst", "bool", "spec", "size"):
        return t
    if op in _BINDERS:
        b = t.args[0]
        bs = set(b if isinstance(b, tuple) else (b,))
        env2 = {k: v for k, v in env.items() if k not in bs}
        free = _FREEPOS.get(op, ())
        if not env2 and not free:
            return t
        # capture check: an index expression mentioning the bound axis
        for k, v in env2.items():
            if isinstance(v, T) and (v.ax & bs) and not (isinstance(k, T) and v.ax <= k.ax):
                if isinstance(b, tuple):
                    return top("capture")
                b2 = axis_alias(b)
                ren = {b: mk("idx", b2)}
                args = [(x if i + 1 in free or not isinstance(x, T) else subst(x, ren))
                        for i, x in enumerate(t.args[1:])]
                if free and any(isinstance(x, tuple) for x in args):
                    return top("capture")
                return _subst(mk(op, b2, *args), env, keys, nodes, memo)

        def S2(x):
            return subst(x, env2)
        if free:
            def SS(x, f):
                if isinstance(x, T):
                    return f(x)
                if isinstance(x, tuple):
                    return tuple(SS(y, f) for y in x)
                return x
            return mk(op, b, *[SS(x, S if i + 1 in free else S2) for i, x in enumerate(t.args[1:])])
        if op == "trapz":
            return trapz(b, S2(t.args[1]), S2(t.args[2]))
        if op == "arr":
            return mk("arr", b, *[S2(x) for x in t.args[1:]])
        if op == "count":
            return reduce_("count", b, S2(t.args[1]))
        if op == "any":
            return reduce_("any", b, S2(t.args[2]), S2(t.args[1]))
        return reduce_(op, b, S2(t.args[2]), S2(t.args[1]))
    if op == "poly":
        out = []
        for c, m in t.args:
            r = num(c)
            for a, e in m:
                if a.op == "num":
                    r = mul(r, mk_mono(F(1), ((a, e),)))
                else:
                    r = mul(r, power(S(a), e))
            out.append(r)
        return add(*out)
    if op == "fac":
        return _opaque(S(t.args[0]))
    if op == "inv":
        return power(S(t.args[0]), F(-1))
    if op == "pw":
        return power(S(t.args[0]), t.args[1])
    if op == "fn":
        a = tuple(S(x) for x in t.args[1])
        if t.args[0] in ("pow", "powc"):
            return power(a[0], a[1])
        if t.args[0] == "addspec":
            return add(*a)
        if t.args[0] == "mulspec":
            return mul(*a)
        return fn(t.args[0], *a)
    if op == "minmax":
        return minmax(t.args[0], *[S(x) for x in t.args[1]])
    if op == "lt0":
        return lt0(S(t.args[0]))
    if op == "eq0":
        return eq(S(t.args[0]), ZERO)
    if op == "seq":
        return eq(S(t.args[0]), S(t.args[1]))
    if op == "not":
        return not_(S(t.args[0]))
    if op == "and":
        return and_(*[S(x) for x in t.args])
    if op == "ite":
        return ite(S(t.args[0]), S(t.args[1]), S(t.args[2]))
    if op == "tab":
        return tab([S(x) for x in t.args[0]], S(t.args[1]))
    # generic: rebuild arguments
    def R(x):
        if isinstance(x, T):
            return S(x)
        if isinstance(x, tuple):
            return tuple(R(y) for y in x)
        return x
    return mk(op, *[R(x) for x in t.args])


def app(name, *args, sign=None):
    """application of a trusted external function left uninterpreted"""
    return mk("app", name, sign, tuple(args))


def children(t):
    out = []

    def go(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    for a in t.args:
        go(a)
    return out


def nodes(t, seen=None):
    if seen is None:
        seen = {}
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        st.extend(children(x))
    return seen


# ------------------------------------------------------------------ printing
def show(t, d=6):
    if d == 0:
        return "..."
    op = t.op
    s = lambda x: show(x, d - 1)
    if op == "num":
        v = t.args[0]
        if v.denominator == 1 and abs(v.numerator) < 10**7:
            return str(v.numerator)
        if v.denominator < 10**5 and abs(v.numerator) < 10**6:
            return "%d/%d" % (v.numerator, v.denominator)
        return "%.6g" % float(v) if abs(v) < F(10)**300 else str(v)
    if op in ("cst", "spec"):
        return t.args[0]
    if op == "bool":
        return str(t.args[0])
    if op == "sym":
        ix = t.args[1:]
        return t.args[0].name + ("[%s]" % ",".join(s(i) for i in ix) if ix else "")
    if op == "idx":
        return "i(%s)" % t.args[0].name
    if op == "size":
        return "len(%s)" % t.args[0].name
    if op == "poly":
        out = []
        for c, m in t.args:
            fs = []
            if c != 1 or not m:
                fs.append(show(num(c)))
            for a, e in m:
                x = s(a)
                if a.op == "poly":
                    x = "(%s)" % x
                if e != 1:
                    x += "^%s" % (e if e.denominator == 1 else "(%s)" % e)
                fs.append(x)
            out.append("*".join(fs))
        if len(out) > 12:
            out = out[:12] + ["...%d more" % (len(t.args) - 12)]
        return " + ".join(out)
    if op in ("fac",):
        return "(%s)" % s(t.args[0])
    if op == "inv":
        return "1/(%s)" % s(t.args[0])
    if op == "pw":
        return "(%s)^(%s)" % (s(t.args[0]), t.args[1])
    if op == "fn":
        return "%s(%s)" % (t.args[0], ", ".join(s(x) for x in t.args[1]))
    if op == "minmax":
        return "%s(%s)" % (t.args[0], ", ".join(s(x) for x in t.args[1]))
    if op == "lt0":
        return "(%s < 0)" % s(t.args[0])
    if op == "eq0":
        return "(%s == 0)" % s(t.args[0])
    if op == "not":
        return "!%s" % s(t.args[0])
    if op == "and":
        return "(%s)" % " & ".join(s(x) for x in t.args)
    if op == "ite":
        return "if(%s, %s, %s)" % tuple(s(x) for x in t.args)
    if op == "app":
        return "%s(%s)" % (t.args[0], ", ".join(s(x) if isinstance(x, T) else str(x) for x in t.args[2]))
    if op == "top":
        return "?%s" % (t.args[0],)
    return "%s(%s)" % (op, ", ".join(s(x) if isinstance(x, T) else repr(x) for x in t.args))
