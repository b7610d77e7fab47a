"""Separation of two value-flow graphs.

Two graphs that have the same canonical form denote the same value: nothing more is needed.  When the canonical
forms differ the difference may still be one of spelling, so a difference is reported only when it is
*established*: when some assignment of the declared input symbols that satisfies every path condition makes the
two graphs differ.  Nothing of the analysed program is executed here; the graphs are.  An unknown node that
matters for the value makes the assignment inconclusive, never a difference.
"""
import math
import random
from fractions import Fraction as F
from . import terms as t
from .terms import T
from .values import *
from .canon import Canon, Big

RTOL = 1e-8
SNAP = 1e-11


class Unk(Exception):
    """the value depends on a node the analysis could not interpret"""


_axk = {}


def axkey(x):
    k = _axk.get(x)
    if k is None:
        k = _axk[x] = tuple(sorted(x.ax, key=lambda a: a.id))
    return k


def _pow(b, e):
    try:
        if b == 0 and e < 0:
            return math.inf
        if b < 0 and e != int(e):
            return math.nan
        return b ** e
    except OverflowError:
        return math.inf
    except (ValueError, ZeroDivisionError):
        return math.nan


def _log10(x):
    return math.log10(x) if x > 0 else (-math.inf if x == 0 else math.nan)


def _snapint(x):
    r = round(x) if math.isfinite(x) else x
    return float(r) if math.isfinite(x) and abs(x - r) < 1e-9 * max(1, abs(x)) else x


def _rint(x):
    return float(round(x)) if math.isfinite(x) else x


FN = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": lambda x: math.exp(min(x, 700)),
      "log10": _log10, "log": lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan),
      "log2": lambda x: math.log2(x) if x > 0 else (-math.inf if x == 0 else math.nan),
      "idiv": lambda x, y: float(math.floor((x + 0.5) / y)), "imod": lambda x, y: float(math.fmod(x, y)),
      "abs": abs, "floor": lambda x: float(math.floor(_snapint(x))) if math.isfinite(x) else x,
      "ceil": lambda x: float(math.ceil(_snapint(x))) if math.isfinite(x) else x,
      "trunc": lambda x: float(math.trunc(_snapint(x))) if math.isfinite(x) else x, "round": _rint, "rint": _rint,
      "arctan2": math.atan2, "arctan": math.atan, "tanh": math.tanh,
      "sinh": lambda x: math.sinh(max(-700, min(x, 700))), "cosh": lambda x: math.cosh(max(-700, min(x, 700))),
      "arcsin": lambda x: math.asin(x) if -1 <= x <= 1 else math.nan,
      "arccos": lambda x: math.acos(x) if -1 <= x <= 1 else math.nan,
      "sign": lambda x: 0.0 if x == 0 else math.copysign(1.0, x),
      "log1p": lambda x: math.log1p(x) if x > -1 else math.nan, "expm1": lambda x: math.expm1(min(x, 700)),
      "pow": _pow, "powc": _pow, "erf": math.erf,
      "exp2": lambda x: _pow(2.0, x), "mod": lambda a, b: math.nan if b == 0 else a - b * math.floor(_snapint(a / b))}


def _jv(n, x):
    """Bessel function of the first kind by its power series (moderate arguments)"""
    if not math.isfinite(n) or not math.isfinite(x):
        return math.nan
    if abs(x) > 60:
        raise Unk("Bessel argument")
    if n == int(n) and n < 0:
        return (-1) ** int(-n) * _jv(-n, x)
    s, h = 0.0, x / 2.0
    if h == 0:
        return 1.0 if n == 0 else 0.0
    for k in range(150):
        try:
            lg = math.lgamma(k + 1) + math.lgamma(k + n + 1)
        except ValueError:
            continue
        e = (2 * k + n) * math.log(abs(h)) - lg
        if e < -745:
            if k > abs(h):
                break
            continue
        s += (-1) ** k * math.exp(e)
    if h < 0 and n == int(n) and int(n) % 2:
        s = -s
    return s


GL7 = [(-0.9491079123427585, 0.1294849661688697), (-0.7415311855993945, 0.2797053914892766),
       (-0.4058451513773972, 0.3818300505051189), (0.0, 0.4179591836734694),
       (0.4058451513773972, 0.3818300505051189), (0.7415311855993945, 0.2797053914892766),
       (0.9491079123427585, 0.1294849661688697)]


def close(a, b, rtol=RTOL):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    m = max(abs(a), abs(b))
    return abs(a - b) <= rtol * m


class Ev:
    def __init__(self, seed, size=3, zero=None, overrides=None, cap=60):
        self.seed, self.size, self.zero, self.cap = seed, size, zero, cap
        self.over = dict(overrides or {})
        self.vals = {}
        self.memo = {}
        self.apps = {}
        self.bound = {}
        self.nev = 0
        self.doms = {}
        self.noise = None

    def noisy(self, k):
        """the same assignment, every operation carrying a rounding error of its own"""
        e = Ev(self.seed, self.size, self.zero, self.over, self.cap)
        e.vals, e.apps, e.doms = self.vals, self.apps, self.doms
        e.noise = random.Random("%s|noise|%d" % (self.seed, k))
        return e

    # ---------------------------------------------------------- axes
    def axlen(self, ax):
        if ax is t.ONE:
            return 1
        if ax.kind == "alias":
            return self.axlen(ax.data[0])
        if ax.kind == "sym":
            return max(t.AXSIZE.get(ax.data, 1), self.size)
        if ax.kind == "n":
            v = self.ev(ax.data, {})
            if not math.isfinite(v):
                raise Unk("axis size")
            return max(0, int(round(v)))
        if ax.kind == "rev":
            return self.axlen(ax.data)
        if ax.kind == "slice":
            base, lo, cnt, step = ax.data
            n, lo, cnt = self.axlen(base), self.ev(lo, {}), self.ev(cnt, {})
            if n <= self.cap and math.isfinite(lo) and math.isfinite(cnt) and lo >= 0:
                return max(0, int(cnt)) if step != 1 else max(0, min(int(round(cnt)), n - int(round(lo))))
        raise Unk("axis " + ax.kind)

    def dom(self, ax):
        r = self.doms.get(ax)
        if r is None:
            n = self.axlen(ax)
            if n <= self.cap:
                r = list(range(n))
            else:
                rn = random.Random(n)
                s = {0, 1, 2, n // 2, n - 3, n - 2, n - 1} | {rn.randrange(n) for _ in range(self.cap // 4)}
                r = sorted(s)
            self.doms[ax] = r
        return r

    def each(self, ax, mask, env):
        for i in self.dom(ax):
            e = dict(env)
            e[ax] = i
            if mask is t.TRUE or self.b(mask, e):
                yield i, e

    # ---------------------------------------------------------- symbols
    def symval(self, d, idx):
        k = (d.name, idx)
        if k in self.over:
            return self.over[k]
        v = self.vals.get(k)
        if v is None:
            v = self.vals[k] = self.draw(d, random.Random("%s|%s|%s" % (self.seed, d.name, idx)))
        return v

    def draw(self, d, r):
        if d.isbool:
            return r.random() < 0.5
        dom = d.dom
        if dom is None:
            dom = (0, 2) if d.sgn else (-1.5, 2)
            if d.sgn == "p":
                dom = (0.1, 2)
            if d.isint:
                dom = (1, 4)
        if dom[0] == "choice":
            return r.choice(dom[1:])
        lo, hi = float(dom[0]), float(dom[1])
        if d.isint:
            return float(r.randint(int(lo), int(hi)))
        if lo == 0 or d.sgn == "n":
            pz = {"all": 1.0, "none": 0.0}.get(self.zero, 0.35)
            if lo <= 0 and r.random() < pz:
                return 0.0
        if lo > 0 and hi / lo > 50:
            return math.exp(r.uniform(math.log(lo), math.log(hi)))
        return r.uniform(lo, hi)

    # ---------------------------------------------------------- evaluation
    def ev(self, x, env):
        ks = axkey(x)
        try:
            k = (x, tuple([env[a] for a in ks])) if ks else x
        except KeyError:
            raise Unk("free index")
        if k in self.memo:
            v = self.memo[k]
            if isinstance(v, Unk):
                raise v
            return v
        self.nev += 1
        if self.nev > 3_000_000:
            raise Unk("evaluation budget")
        try:
            v = self._ev(x, env)
        except Unk as u:
            self.memo[k] = u
            raise
        except (OverflowError, ValueError, ZeroDivisionError):
            v = math.nan
        if self.noise is not None and isinstance(v, float) and x.op not in ("num", "sym", "idx", "size") and \
                math.isfinite(v) and v != round(v):
            v *= 1 + self.noise.uniform(-4e-16, 4e-16)
        self.memo[k] = v
        return v

    def n(self, x, env):
        return self.tonum(self.ev(x, env))

    def tonum(self, v):
        if isinstance(v, bool):
            return 1.0 if v else 0.0
        if isinstance(v, (int, float)):
            return float(v)
        return self.hashed("numeric", (v,))

    def b(self, x, env):
        v = self.ev(x, env)
        if isinstance(v, float):
            return v != 0
        if isinstance(v, bool):
            return v
        return self.hashed("truth", (v,)) > 1.0

    def _ev(self, x, env):
        op, a = x.op, x.args
        if op == "num":
            try:
                return float(a[0])
            except OverflowError:
                return math.inf
        if op == "poly":
            s, m = self.poly(a, env)
            if len(a) > 1 and math.isfinite(m) and abs(s) < 1e-5 * m:
                w = self.exact(a, env)
                if w:
                    return w if self.noise is None else w * (1 + self.noise.uniform(-1e-12, 1e-12))
            if len(a) > 1 and math.isfinite(m) and abs(s) < SNAP * m:
                if abs(s) < SNAP * m and len(a) <= 3:
                    return 0.0
                raise Unk("cancellation")
            return s
        if op == "sym":
            d = a[0]
            if d in self.bound:
                return self.bound[d]
            return self.symval(d, tuple([int(self.n(i, env)) for i in a[1:]]))
        if op == "idx":
            return float(env[a[0]])
        if op == "cst":
            return {"pi": math.pi, "G": 6.6743e-11, "c": 299792458.0}[a[0]] if a[0] in ("pi", "G", "c") else \
                self.hashed("cst", (a[0],))
        if op == "bool":
            return a[0]
        if op == "spec":
            return float(a[0])
        if op == "top":
            raise Unk(str(a[0]))
        if op == "size":
            return float(self.axlen(a[0]))
        if op == "fac":
            return self.ev(a[0], env)
        if op == "inv":
            return _pow(self.n(a[0], env), -1)
        if op == "pw":
            return _pow(self.n(a[0], env), float(a[1]))
        if op == "ite":
            return self.ev(a[1] if self.b(a[0], env) else a[2], env)
        if op == "lt0":
            return self.gap(a[0], env) < 0
        if op == "eq0":
            return self.gap(a[0], env) == 0
        if op == "seq":
            return self.same(self.ev(a[0], env), self.ev(a[1], env))
        if op == "not":
            return not self.b(a[0], env)
        if op == "and":
            u = None
            for y in a:
                try:
                    if not self.b(y, env):
                        return False
                except Unk as e:
                    u = e
            if u:
                raise u
            return True
        if op == "fn":
            vs = [self.n(y, env) for y in a[1]]
            if a[0] == "addspec":
                return sum(vs)
            if a[0] == "mulspec":
                return vs[0] * vs[1]
            f = FN.get(a[0])
            if f is None:
                return self.hashed("fn:" + a[0], tuple(vs))
            if any(v != v for v in vs):
                return math.nan
            return float(f(*vs))
        if op == "minmax":
            vs = [self.n(y, env) for y in a[1]]
            if any(v != v for v in vs):
                return math.nan
            return (max if a[0] == "max" else min)(vs)
        if op == "tab":
            i = int(round(self.n(a[1], env)))
            if -len(a[0]) <= i < len(a[0]):
                return self.ev(a[0][i], env)
            raise Unk("table index")
        if op == "sum":
            s = m = 0.0
            for i, e in self.each(a[0], a[1], env):
                v = self.n(a[2], e)
                s += v
                m += abs(v)
            return 0.0 if abs(s) < SNAP * m else s
        if op == "prod":
            s = 1.0
            for i, e in self.each(a[0], a[1], env):
                s *= self.n(a[2], e)
            return s
        if op in ("max", "min"):
            vs = [self.n(a[2], e) for i, e in self.each(a[0], a[1], env)]
            if any(v != v for v in vs):
                return math.nan
            if not vs:
                return -math.inf if op == "max" else math.inf
            return (max if op == "max" else min)(vs)
        if op in ("argmax", "argmin"):
            best, bi = None, None
            for i, e in self.each(a[0], a[1], env):
                v = self.n(a[2], e)
                if op == "argmin":
                    v = -v
                if best is None or v > best * (1 + 1e-12 if best > 0 else 1 - 1e-12):
                    best, bi = v, i
            if bi is None:
                raise Unk("argmax of nothing")
            return float(bi)
        if op == "any":
            return any(self.b(a[2], e) for i, e in self.each(a[0], a[1], env))
        if op == "count":
            if self.axlen(a[0]) > self.cap:
                ds = self.dom(a[0])
            return float(sum(1 for _ in self.each(a[0], a[1], env)))
        if op == "trapz":
            pts = [(self.n(a[1], e), self.n(a[2], e)) for i, e in self.each(a[0], t.TRUE, env)]
            return sum((q[1] - p[1]) * (p[0] + q[0]) / 2 for p, q in zip(pts, pts[1:]))
        if op == "cumsum":
            j = self.n(a[3], env)
            return sum(self.n(a[2], e) for i, e in self.each(a[0], a[1], env) if i <= j)
        if op == "rank":
            j = self.n(a[2], env)
            return float(sum(1 for i, e in self.each(a[0], a[1], env) if i < j))
        if op == "nth":
            j = int(round(self.n(a[2], env)))
            k = [i for i, e in self.each(a[0], a[1], env)]
            if -len(k) <= j < len(k):
                return float(k[j])
            raise Unk("no such entry")
        if op == "arr":
            axs = a[0] if isinstance(a[0], tuple) else (a[0],)
            out = []

            def go(k, e):
                if k == len(axs):
                    if all(self.b(m, e) for m in a[2:]):
                        out.append(self.ev(a[1], e))
                    return
                for i in self.dom(axs[k]):
                    e2 = dict(e)
                    e2[axs[k]] = i
                    go(k + 1, e2)
            go(0, dict(env))
            return ("arr",) + tuple(out)
        if op == "interp":
            ax, ex, ey, q, lo, hi = a
            pts = [(self.n(ex, e), self.n(ey, e)) for i, e in self.each(ax, t.TRUE, env)]
            qv = self.n(q, env)
            xs = [p[0] for p in pts]
            if any(not x0 < x1 for x0, x1 in zip(xs, xs[1:])):
                return self.hashed("interp", (tuple(pts), qv))
            if qv < xs[0]:
                return self.n(lo, env)
            if qv > xs[-1]:
                return self.n(hi, env)
            for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
                if x0 <= qv <= x1:
                    return y0 + (y1 - y0) * (qv - x0) / (x1 - x0)
            return pts[0][1]
        if op == "quad":
            q, body, lo, hi = a
            lo, hi = self.n(lo, env), self.n(hi, env)
            if not (math.isfinite(lo) and math.isfinite(hi)):
                return math.nan
            s = 0.0
            for z, w in GL7:
                s += w * self.under({q.args[0]: (lo + hi) / 2 + (hi - lo) / 2 * z}, body, env)
            return s * (hi - lo) / 2
        if op == "ode":
            y, tt, body, y0, t0, ti = a
            y0, t0, ti = self.n(y0, env), self.n(t0, env), self.n(ti, env)
            if close(t0, ti, 1e-9):
                return y0
            sig = [self.under({y.args[0]: p, tt.args[0]: q}, body, env) for p, q in ((0.31, 1e3), (0.62, 2e5))]
            return y0 * (0.35 + 0.3 * self.hashed("ode", (tuple(sig), y0, ti - t0)))
        if op == "app":
            return self._app(a, env)
        if op == "bapp":
            vs = [self.gen(y, env) for y in a[1]]
            if a[0] == "isnan":
                return self.tonum(vs[0]) != self.tonum(vs[0])
            if a[0] == "isinf":
                return math.isinf(self.tonum(vs[0]))
            if a[0] == "isfinite":
                return math.isfinite(self.tonum(vs[0]))
            if a[0] == "truth" and isinstance(vs[0], (bool, float)):
                return bool(vs[0])
            if a[0] == "eq":
                if self.same(vs[0], vs[1]):
                    return True
            if a[0] == "streq" and isinstance(vs[0], str):
                return repr(vs[0]) == vs[1]
            return self.hashed("bapp:" + a[0], tuple(vs)) > 1.0
        return (op,) + tuple(self.gen(y, env) for y in a)

    def poly(self, a, env):
        s = m = 0.0
        for c, mono in a:
            p = float(c)
            for f, e in mono:
                fv = self.n(f, env)
                p *= fv if e == 1 else _pow(fv, float(e))
            s += p
            m += abs(p)
        if self.noise is not None and math.isfinite(m) and s != round(s):
            s += m * self.noise.uniform(-4e-16, 4e-16)
        return s, m

    def exact(self, a, env):
        """an expanded power of inputs, such as (1 - e**2)**4, times what all its terms share, without the rounding
        the expansion would suffer"""
        low = dict(a[0][1])
        for c, mono in a[1:]:
            d = dict(mono)
            low = {f: min(e, d[f]) for f, e in low.items() if f in d}
        for c, mono in a:
            for f, e in mono:
                if f not in low and e < 0:
                    low[f] = min([dict(m).get(f, 0) for c, m in a])
        s = F(0)
        for c, mono in a:
            p, d = F(c), dict(mono)
            for f in set(d) | set(low):
                e = d.get(f, 0) - low.get(f, 0)
                if e == 0:
                    continue
                if f.op != "sym" or e != int(e) or e < 0:
                    return None
                p *= F(self.n(f, env)) ** int(e)
            s += p
        s = float(s)
        for f, e in low.items():
            if e != 0:
                s *= _pow(self.n(f, env), float(e))
        return s if math.isfinite(s) and abs(s) > 1e-200 else None

    def gap(self, x, env):
        """a difference whose sign is asked for: level when it vanishes within rounding"""
        if x.op != "poly":
            return self.n(x, env)
        s, m = self.poly(x.args, env)
        return 0.0 if abs(s) < SNAP * m and math.isfinite(m) else s

    def under(self, b, body, env):
        sm, sb = self.memo, self.bound
        self.memo, self.bound = {}, dict(self.bound, **{}) if False else {**self.bound, **b}
        try:
            return self.n(body, env)
        finally:
            self.memo, self.bound = sm, sb

    def _app(self, a, env):
        name, sign, args = a
        vs = tuple(self.gen(y, env) for y in args)
        if name == "jv":
            return _jv(self.tonum(vs[0]), self.tonum(vs[1]))
        if name == "nan_to_num":
            e = self.tonum(vs[0])
            return self.tonum(vs[1]) if e != e else e
        if name == "searchsorted" and isinstance(vs[0], tuple) and vs[0][:1] == ("arr",):
            xs, q = vs[0][1:], self.tonum(vs[1])
            left = "right" not in str(vs[2])
            return float(sum(1 for z in xs if (z < q if left else z <= q)))
        return self.hashed("app:" + name, vs)

    def gen(self, y, env):
        if isinstance(y, t.T):
            return self.ev(y, env)
        if isinstance(y, tuple):
            return tuple(self.gen(z, env) for z in y)
        if isinstance(y, t.Axis):
            try:
                return ("axis", float(self.axlen(y)))
            except Unk:
                return ("axis", y.name)
        return y

    # uninterpreted functions: equal arguments give equal values, nothing else is assumed
    def hashed(self, name, vs):
        fl, sk = [], []

        def go(v):
            if isinstance(v, (bool, str, type(None))):
                sk.append(repr(v))
            elif isinstance(v, (int, float)):
                fl.append(float(v))
                sk.append("#")
            elif isinstance(v, F):
                fl.append(float(v))
                sk.append("#")
            elif isinstance(v, tuple):
                sk.append("(")
                for z in v:
                    go(z)
                sk.append(")")
            else:
                sk.append(repr(v))
        go(vs)
        k = (name, " ".join(sk))
        L = self.apps.setdefault(k, [])
        for f, v in L:
            if all(close(p, q, 1e-7) for p, q in zip(f, fl)):
                return v
        if str(name).startswith("app:int:"):
            v = float(random.Random("%s|%s|%d" % (self.seed, k, len(L))).choice(
                (2, 3, 5, 7, 9, 10, 10, 11, 12, 99, 100, 101, 1000, 1001)))
            L.append((fl, v))
            return v
        v = random.Random("%s|%s|%d" % (self.seed, k, len(L))).uniform(-0.6 if str(name).startswith("app:signed") else 0.2, 1.8)
        L.append((fl, v))
        return v

    def same(self, a, b):
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
            return close(float(a), float(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(p, q) for p, q in zip(a, b))
        return a == b

    # ---------------------------------------------------------- whole values
    def conc(self, I, v, depth=0):
        """the value as nested tuples under this assignment"""
        if depth > 12:
            return ("deep",)
        c = lambda w: self.conc(I, w, depth + 1)
        if isinstance(v, Gate):
            return c(v.a if self.b(v.c, {}) else v.b)
        if isinstance(v, Const):
            if isinstance(v.v, bool):
                return v.v
            return ("const", repr(v.v))
        if isinstance(v, Sc):
            x = self.ev(v.e, {})
            if isinstance(x, bool) or t.is_bool(v.e):
                return bool(x)
            return ("num", self.tonum(x), self.dims(v.unit))
        if isinstance(v, Arr):
            e = I.elem(v)
            vals, shape = [], []
            axes = []
            for ax in v.axes:
                axes.append(ax)
            isb = t.is_bool(e)

            def tuples(ax, env):
                if ax is t.ONE:
                    return [env]
                if ax.kind == "sub":
                    return [q for q in tuples(ax.data[0], env) if self.b(ax.data[1], q)]
                if ax.kind == "flat":
                    es = [env]
                    for z in ax.data:
                        es = [q2 for q in es for q2 in tuples(z, q)]
                    return es
                return [dict(env, **{}) | {ax: i} for i in self.dom(ax)]

            def go(k, env):
                if k == len(axes):
                    x = self.ev(e, env)
                    vals.append(bool(x) if isb else self.tonum(x))
                    return
                ts = tuples(axes[k], env)
                if len(shape) <= k:
                    shape.append(len(ts))
                for q in ts:
                    go(k + 1, q)
            go(0, {})
            return ("array", tuple(shape), tuple(vals), self.dims(v.unit))
        if isinstance(v, (Tup, SetV)):
            return ("seq",) + tuple(c(x) for x in v.items)
        if isinstance(v, Lst):
            r = I.rec(v)
            if isinstance(r, ListRec):
                out = []
                for x in r.items:
                    if type(x).__name__ == "_Cond":
                        if self.b(x.c, {}):
                            out.append(c(x.v))
                    else:
                        out.append(c(x))
                return ("seq",) + tuple(out)
            raise Unk("generic list")
        if isinstance(v, Dct):
            r = I.rec(v)
            if isinstance(r, DictRec) and r.unknown is None:
                return ("dict",) + tuple(sorted(((repr(k), c(x)) for k, x in r.d.items()), key=lambda p: p[0]))
            raise Unk("dict")
        if isinstance(v, Opq):
            if v.term.top:
                raise Unk("opaque")
            return ("opq", self.ev(v.term, {}))
        if isinstance(v, UnitV):
            return ("unit", self.ev(v.u.scale, {}), v.u.dims)
        if isinstance(v, Obj):
            r = I.rec(v)
            if isinstance(r, ObjRec):
                if r.payload is not None:
                    p = r.payload
                    return ("obj", r.cls.name, c(p) if not isinstance(p, (int, str)) else p)
                return ("obj", r.cls.name, v.loc)
            raise Unk("object")
        if v is None:
            return ("nothing",)
        return ("key", I.key(v))

    def dims(self, u):
        return (0, 0, 0) if u is None else tuple(float(d) for d in u.norad())


def differ(a, b, path="", rtol=RTOL):
    """first established difference between two concretised values, or None"""
    if isinstance(a, bool) and isinstance(b, bool):
        return None if a == b else (path, a, b)
    if isinstance(a, bool) or isinstance(b, bool):
        # truth values and 0/1 numbers are the same to a caller
        fa = float(a) if isinstance(a, bool) else a
        fb = float(b) if isinstance(b, bool) else b
        fa = fa[1] if isinstance(fa, tuple) and fa[:1] == ("num",) else fa
        fb = fb[1] if isinstance(fb, tuple) and fb[:1] == ("num",) else fb
        if isinstance(fa, float) and isinstance(fb, float):
            return None if close(fa, fb, rtol) else (path, a, b)
        return (path, a, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return None if close(float(a), float(b), rtol) else (path, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[:1] != b[:1]:
            # a one-element array and a scalar differ in shape only
            return (path, a, b)
        if a[:1] == ("array",):
            if a[1] != b[1]:
                return (path + ".shape", a[1], b[1])
            for i, (x, y) in enumerate(zip(a[2], b[2])):
                d = differ(x, y, "%s[%d]" % (path, i), rtol)
                if d:
                    return d
            return None if a[3] == b[3] else (path + ".unit", a[3], b[3])
        if len(a) != len(b):
            return (path + ".length", a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, "%s.%s" % (path, x if isinstance(x, str) and False else i), rtol)
            if d:
                return d
        return None
    return None if a == b else (path, a, b)


def resolved(ev, impl, ref, outcome, x=None, y=None, d=None):
    """does the difference stand when every operation is rounded a little differently?"""
    rtol = None
    if d is not None:
        p, q = d[1], d[2]
        rtol = 0.02
        if isinstance(p, float) and isinstance(q, float) and math.isfinite(p) and math.isfinite(q):
            rtol = min(0.02, abs(p - q) / max(abs(p), abs(q)) / 20)
    for k in range(3):
        e = ev.noisy(k)
        now = tuple(s.status(e) for s in (impl, ref))
        if tuple(w and w[1].exc for w in now) != tuple(w and w[1].exc for w in outcome):
            return False
        if d is not None and (differ(x, impl.conc(e), "", rtol) or differ(y, ref.conc(e), "", rtol)):
            return False
    return True


class Side:
    """the summary of one program: value, final state and the ways it can end in an error"""

    def __init__(self, I, value, raises):
        self.I, self.value = I, value
        self.raises = [r for r in raises if r.pc is not t.FALSE]
        self.st = I.st.clone()
        self.ends = value is not None

    def status(self, ev):
        for r in self.raises:
            if ev.b(r.pc, {}):
                return ("raises", r)
        return None

    def conc(self, ev):
        s, self.I.st = self.I.st, self.st
        try:
            return ev.conc(self.I, self.value)
        finally:
            self.I.st = s

    def key(self):
        s, self.I.st = self.I.st, self.st
        self.I.loose_units = True
        try:
            return self.I.key(self.value)
        finally:
            self.I.st = s
            self.I.loose_units = False

    def terms(self):
        out = [r.pc for r in self.raises]

        def go(k):
            if isinstance(k, t.T):
                out.append(k)
            elif isinstance(k, (tuple, frozenset)):
                for x in k:
                    go(x)
        if self.value is not None:
            go(self.key())
        return out


def all_nodes(ts):
    seen = {}
    for x in ts:
        t.nodes(x, seen)
    return seen


def atoms(ts):
    return [x for x in all_nodes(ts).values() if x.op in ("lt0", "eq0")]


def sym_instances(ev, x, env, out):
    """concrete symbol instances an atom mentions under env"""
    seen = set()
    st = [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "sym":
            try:
                k = (y.args[0], tuple(int(ev.n(i, env)) for i in y.args[1:]))
                if k not in out:
                    out.append(k)
            except (Unk, KeyError):
                pass
            continue
        st.extend(t.children(y))
    return out


def boundary(atom, base, rng):
    """overrides that put the two sides of a comparison (nearly) level"""
    ev = Ev(**base)
    env = {}
    try:
        for ax in axkey(atom):
            d = ev.dom(ax)
            if not d:
                return
            env[ax] = rng.choice(d)
        syms = sym_instances(ev, atom.args[0], env, [])
        rng.shuffle(syms)
    except Unk:
        return
    for d, idx in syms[:4]:
        if d.isbool or (d.dom and d.dom[0] == "choice") or d.name.startswith("$"):
            continue
        dom = d.dom or ((0.05, 2) if d.sgn else (-1.5, 2))

        def f(v):
            e = Ev(**dict(base, overrides={**base.get("overrides", {}), (d.name, idx): v}))
            return e.gap(atom.args[0], env)
        try:
            lo, hi = float(dom[0]), float(dom[1])
            if d.isint:
                sols = [float(k) for k in range(int(lo), min(int(hi), int(lo) + 40) + 1) if f(float(k)) == 0]
                for s in sols[:2]:
                    yield {(d.name, idx): s}
                continue
            # the function may be constant near an end: look at a few cells
            k = 6
            xs = [lo + (hi - lo) * i / k for i in range(k + 1)]
            if lo > 0 and hi / lo > 50:
                xs = [lo * (hi / lo) ** (i / k) for i in range(k + 1)]
            if len(dom) > 2:
                # a threshold may lie outside the range values are usually drawn from
                xs = [dom[2]] * (dom[2] < lo) + xs + [dom[3]] * (dom[3] > hi)
                lo, hi = min(lo, dom[2]), max(hi, dom[3])
            # and two inputs may matter only where they are (nearly) equal
            near = {ev.symval(d2, i2) for d2, i2 in syms if (d2.name, i2) != (d.name, idx) and not d2.isbool
                    and not (d2.dom and d2.dom[0] == "choice")}
            xs = sorted(set(xs) | {v for v in list(near)[:4] if isinstance(v, float) and lo < v < hi})
            fs = [f(v) for v in xs]
            for (a, fa), (b, fb) in zip(zip(xs, fs), list(zip(xs, fs))[1:]):
                if fa != fa or fb != fb or (fa > 0) == (fb > 0) and fa != 0 and fb != 0:
                    continue
                if fa == 0 and fb == 0:
                    continue
                if fa == 0:
                    yield {(d.name, idx): a}
                    continue
                if fb == 0:
                    yield {(d.name, idx): b}
                    continue
                # false position for (nearly) linear gaps, then bisection
                m = a - fa * (b - a) / (fb - fa)
                exact = f(m) == 0
                if not exact:
                    p, q, fp = a, b, fa
                    for _ in range(60):
                        m = (p + q) / 2
                        fm = f(m)
                        if fm == 0:
                            exact = True
                            break
                        if (fm > 0) == (fp > 0):
                            p = m
                        else:
                            q = m
                if exact or True:
                    yield {(d.name, idx): m}
                w = max(abs(m), abs(float(dom[1]) - float(dom[0])) * 1e-6) * 1e-3
                for v in (m - w, m + w):
                    if v > hi or v < lo:
                        v = (m + (hi if v > hi else lo)) / 2
                    yield {(d.name, idx): v}
                if len(dom) > 2 and not dom[0] <= m <= dom[1]:
                    yield {(d.name, idx): (m + (hi if m > dom[1] else lo)) / 2}
        except (Unk, KeyError, OverflowError):
            continue


class Verdict:
    def __init__(self):
        self.how = ""
        self.equal = False          # canonical forms coincide
        self.diff = None            # established difference
        self.trials = self.agree = self.unknown = self.skipped = 0
        self.why = {}

    @property
    def decided(self):
        return self.equal or self.diff is not None or self.agree > 0


SUMMARISED = ("loop result", "loop-carried value", "store not followed")


def _unknown(side):
    """is anything in the value unknown that is not a loop's result as a function of all the loop reads?"""
    for x in side.terms():
        if x.top and any(n.op == "top" and not (n.args[0] in SUMMARISED and isinstance(n.args[1], tuple))
                         for n in t.nodes(x).values()):
            return True
    return False


def compare(impl, ref, assume=(), seed=1, trials=14, nbound=60, raises="full", values=True):
    """Verdict on two summaries.  raises: 'full' errors must coincide, 'any' only whether one occurs,
    'none' ignore inputs on which either fails."""
    v = Verdict()
    same_r = _raise_key(impl, raises) == _raise_key(ref, raises)
    if same_r and (impl.value is None) == (ref.value is None) and \
            (not values or impl.value is None or impl.key() == ref.key()):
        if not _unknown(impl):
            v.equal = True
            return v
    try:
        cn = Canon()
        if _canon_raise(cn, impl, raises) == _canon_raise(cn, ref, raises) and \
                (impl.value is None) == (ref.value is None) and \
                (not values or impl.value is None or _canon_key(cn, impl.key()) == _canon_key(cn, ref.key())) and \
                not _unknown(impl):
            v.equal = True
            v.how = "decision-diagram normal form"
            return v
    except (Big, RecursionError):
        v.how = "normal form too large"
        if _piecewise(impl, ref, raises, values):
            v.equal = True
            v.how = "decision-diagram normal form of the parts"
            return v
    bases = []
    for k in range(trials):
        bases.append(dict(seed=seed * 1000 + k, size=(3, 2, 4, 1, 3)[k % 5],
                          zero=(None, "none", "all", None, None, "none")[k % 6]))
    rng = random.Random(seed)
    for b in bases:
        if _trial(v, impl, ref, assume, b, raises, values):
            return v
    ti, tr = impl.terms(), ref.terms()
    ni, nr = all_nodes(ti), all_nodes(tr)
    ats = [x for x in ni.values() if x.op in ("lt0", "eq0")]
    ats += [x for x in nr.values() if x.op in ("lt0", "eq0") and x.id not in ni]
    for x in [x for x in ni.values() if x.op == "minmax"] + [x for x in nr.values() if x.op == "minmax" and x.id not in ni]:
        # the smaller or larger of several: where two of them are level
        one = (x.id in ni) != (x.id in nr)
        for a, b in zip(x.args[1], x.args[1][1:]):
            at = t.lt(a, b)
            if at.op == "lt0":
                ats.append(at)
                if one:
                    ni = {k: y for k, y in ni.items() if k != at.id}
                    nr = {k: y for k, y in nr.items() if k != at.id}
                    (ni if x.id in ni else nr)[at.id] = at
    # the comparisons found on one side only come first
    ats.sort(key=lambda x: ((x.id in ni) == (x.id in nr), x.id))
    done = 0
    for at in ats:
        if done >= nbound:
            break
        for ov in boundary(at, dict(bases[done % 3], overrides={}), rng):
            done += 1
            if _trial(v, impl, ref, assume, dict(bases[done % len(bases)] if done % 2 else bases[0],
                                                 overrides=ov), raises, values):
                return v
            if done >= nbound:
                break
    return v


def _raise_key(s, mode):
    if mode == "none":
        return None
    if mode == "any":
        return t.or_(*[r.pc for r in s.raises]) if s.raises else t.FALSE
    return frozenset((r.exc, r.pc) for r in s.raises)


def _canon_raise(cn, s, mode):
    if mode == "none":
        return None
    d = {}
    for r in s.raises:
        k = str(r.exc) if mode == "full" else ""
        d[k] = t.or_(d.get(k, t.FALSE), r.pc)
    return {k: x for k, x in ((k, cn.term(x)) for k, x in d.items()) if x is not t.FALSE}


def _canon_key(cn, k):
    if isinstance(k, T):
        return cn.term(k)
    if isinstance(k, tuple):
        return tuple(_canon_key(cn, x) for x in k)
    if isinstance(k, frozenset):
        return frozenset(_canon_key(cn, x) for x in k)
    return k


def _piecewise(impl, ref, raises, values):
    """replace sub-terms with equal normal forms by one representative, innermost first, and compare what is left"""
    if (impl.value is None) != (ref.value is None):
        return False
    val = values and impl.value is not None

    def conds(s):
        d = {}
        for r in s.raises if raises != "none" else ():
            k = str(r.exc) if raises == "full" else ""
            d[k] = t.or_(d.get(k, t.FALSE), r.pc)
        return tuple(sorted(((k, x) for k, x in d.items() if x is not t.FALSE), key=lambda p: p[0]))

    a = (conds(impl), impl.key() if val else None)
    b = (conds(ref), ref.key() if val else None)
    if any(x.top for x in impl.terms()):
        return False

    def leaves(k, out):
        if isinstance(k, T):
            out.append(k)
        elif isinstance(k, (tuple, frozenset)):
            for x in k:
                leaves(x, out)
        return out

    made = {}
    for _ in range(8):
        if a == b:
            return True
        na, nb = all_nodes(leaves(a, [])), all_nodes(leaves(b, []))
        forms, first = {}, {}

        def small(m, other):
            c = sorted((len(all_nodes([x])), i) for i, x in m.items() if i not in other)
            return [m[i] for n, i in c if n <= 150][:150]

        def form(x):
            if x not in made:
                try:
                    made[x] = Canon(1500).term(x)
                except (Big, RecursionError):
                    made[x] = None
            return made[x]
        todo_a, todo_b = small(na, nb), small(nb, na)
        for lo in range(0, 150, 12):
            for x in todo_b[lo:lo + 24]:
                f = form(x)
                if f is not None:
                    forms.setdefault(f, x)
            for x in todo_a[lo:lo + 12]:
                f = form(x)
                y = forms.get(f) if f is not None else None
                if y is not None and y is not x and not any(z in first for z in all_nodes([x]).values()):
                    first[x] = y
            if first:
                break
        if not first:
            return False
        memo = {}

        def put(k):
            if isinstance(k, T):
                return t.subst(k, first, memo)
            if isinstance(k, tuple):
                return tuple(put(x) for x in k)
            if isinstance(k, frozenset):
                return frozenset(put(x) for x in k)
            return k
        a = put(a)
    return False


def _trial(v, impl, ref, assume, base, raises, values):
    ev = Ev(**base)
    v.trials += 1
    try:
        for c in assume:
            if not ev.b(c, {}):
                v.skipped += 1
                return False
        a, b = impl.status(ev), ref.status(ev)
        if a is None and impl.value is None or b is None and ref.value is None:
            raise Unk("no outcome")
        if a or b:
            if raises == "none":
                v.skipped += 1
                return False
            for r in (a, b):
                if r and r[1].doubt and not (a and b and str(a[1].exc) == str(b[1].exc)):
                    raise Unk("error after " + str(r[1].doubt))
            if not a or not b or raises == "full" and str(a[1].exc) != str(b[1].exc):
                if not resolved(ev, impl, ref, (a, b)):
                    raise Unk("rounding")
            if not a or not b:
                v.diff = ("error", a and str(a[1].exc), b and str(b[1].exc), (a or b)[1], describe(ev))
                return True
            if raises == "full" and str(a[1].exc) != str(b[1].exc):
                v.diff = ("exception", str(a[1].exc), str(b[1].exc), a[1], describe(ev))
                return True
            v.agree += 1
            return False
        if not values:
            v.agree += 1
            return False
        x, y = impl.conc(ev), ref.conc(ev)
        d = differ(x, y)
        if d and not resolved(ev, impl, ref, (a, b), x, y, d):
            raise Unk("rounding")
        if d:
            v.diff = ("value",) + d + (None, describe(ev))
            return True
        v.agree += 1
    except Unk as u:
        v.unknown += 1
        v.why[str(u)] = v.why.get(str(u), 0) + 1
    except RecursionError:
        v.unknown += 1
        v.why["depth"] = v.why.get("depth", 0) + 1
    return False


def describe(ev):
    out = {}
    for (n, i), x in sorted(list(ev.vals.items()) + list(ev.over.items()), key=lambda p: (p[0][0], p[0][1])):
        if len(out) < 24 and not n.startswith("$"):
            out["%s%s" % (n, list(i) if i else "")] = x
    return out
