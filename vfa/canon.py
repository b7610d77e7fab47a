"""Decision-diagram normal form of a value-flow term.

Gates are lifted out of arithmetic into an ordered decision diagram over the comparison atoms; leaves are gate-free
canonical arithmetic.  Branches that the order relation on a single quantity makes impossible are removed, and in a
branch that fixes or bounds a quantity the leaf is simplified with that fact.
"""
from fractions import Fraction as F
from . import terms as t
from .terms import T, TRUE, FALSE, mk

LIMIT = 60000


class Big(Exception):
    pass


class Canon:
    def __init__(self, limit=LIMIT):
        self.memo = {}
        self.pmemo = {}
        self.work = 0
        self.limit = limit

    def tick(self):
        self.work += 1
        if self.work > self.limit:
            raise Big()

    # ------------------------------------------------------ diagrams
    def isnode(self, x):
        return x.op == "dd"

    def node(self, a, hi, lo):
        if hi is lo:
            return hi
        return mk("dd", a, hi, lo)

    def cof(self, x, a):
        if x.op == "dd" and x.args[0] is a:
            return x.args[1], x.args[2]
        return x, x

    def apply(self, f, xs, memo=None):
        """lift f over the diagrams xs"""
        if memo is None:
            memo = {}
        k = tuple(x.id for x in xs)
        r = memo.get(k)
        if r is not None:
            return r
        self.tick()
        tops = [x.args[0] for x in xs if x.op == "dd"]
        if not tops:
            r = f(*xs)
        else:
            a = min(tops, key=lambda y: y.id)
            cs = [self.cof(x, a) for x in xs]
            r = self.node(a, self.apply(f, [c[0] for c in cs], memo), self.apply(f, [c[1] for c in cs], memo))
        memo[k] = r
        return r

    def ite(self, c, a, b, memo=None):
        if memo is None:
            memo = {}
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        k = (c.id, a.id, b.id)
        r = memo.get(k)
        if r is not None:
            return r
        self.tick()
        x = min([z.args[0] for z in (c, a, b) if z.op == "dd"], key=lambda y: y.id)
        (c1, c0), (a1, a0), (b1, b0) = self.cof(c, x), self.cof(a, x), self.cof(b, x)
        r = self.node(x, self.ite(c1, a1, b1, memo), self.ite(c0, a0, b0, memo))
        memo[k] = r
        return r

    def atom(self, x):
        """a boolean leaf as a diagram"""
        if x is TRUE or x is FALSE:
            return x
        if x.op == "not":
            return self.ite(self.atom(x.args[0]), FALSE, TRUE)
        if x.op == "and":
            r = TRUE
            for y in x.args:
                r = self.ite(r, self.atom(y), FALSE)
            return r
        if x.op == "lt0":
            # one atom per comparison whichever way round it is written
            d = x.args[0]
            n = t.neg(d)
            if d.op == "poly" and n.op == "poly" and self.lead(d) < 0:
                # d < 0  <=>  not (-d < 0) and not (d == 0)
                e = t.eq(d, t.ZERO)
                o = t.lt0(n)
                if o.op == "lt0":
                    r = self.ite(mk("dd", o, TRUE, FALSE), FALSE, TRUE)
                    if e is TRUE or e is FALSE:
                        return FALSE if e is TRUE else r
                    return self.ite(self.atom(e), FALSE, r)
        return mk("dd", x, TRUE, FALSE)

    def lead(self, d):
        """sign of the coefficient of the first non-constant monomial"""
        for c, m in d.args:
            if m:
                return c
        return d.args[0][0]

    # ------------------------------------------------------ terms
    def go(self, x):
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self._go(x)
        return r

    def boolean(self, y):
        """diagram of a truth value"""
        d = self.go(y)
        return self.apply(lambda z: self.atom(t.truth(z)), [d])

    def _go(self, x):
        op, a = x.op, x.args
        self.tick()
        if op in ("num", "cst", "bool", "spec", "size", "idx", "top", "sym"):
            if op == "sym":
                ds = [self.go(i) for i in a[1:]]
                if any(d.op == "dd" for d in ds):
                    return self.apply(lambda *i: mk("sym", a[0], *i), ds)
                return self.numbool(mk("sym", a[0], *ds))
            return x
        if op == "ite":
            return self.ite(self.boolean(a[0]), self.go(a[1]), self.go(a[2]))
        if op == "not":
            return self.ite(self.boolean(a[0]), FALSE, TRUE)
        if op == "and":
            r = TRUE
            for y in a:
                r = self.ite(r, self.boolean(y), FALSE)
            return r
        if op == "lt0":
            return self.lift(lambda d: self.atom(t.lt0(d)), [self.go(a[0])])
        if op == "eq0":
            return self.lift(lambda d: self.atom(t.eq(d, t.ZERO)), [self.go(a[0])])
        if op == "seq":
            return self.lift(lambda p, q: self.atom(t.eq(p, q)), [self.go(a[0]), self.go(a[1])])
        if op == "poly":
            parts = []
            for c, m in a:
                if not m:
                    parts.append(t.num(c))
                    continue
                ds = [self.go(f) for f, e in m]
                if all(d is f for d, (f, e) in zip(ds, m)):
                    parts.append(t.mk_mono(c, m))
                    continue
                es = [e for f, e in m]
                ops = [f.op for f, e in m]

                def prod(*vs):
                    r = t.num(c)
                    for v, e, o in zip(vs, es, ops):
                        r = t.mul(r, t.mk_mono(F(1), ((v, e),)) if o == "num" else t.power(v, e))
                    return r
                parts.append(self.lift(prod, ds))
            if not any(p.op == "dd" for p in parts):
                return t.add(*parts)
            return self.lift(lambda *ps: t.add(*ps), parts)
        if op == "fac":
            return self.go(a[0])
        if op == "inv":
            return self.lift(lambda v: t.power(v, F(-1)), [self.go(a[0])])
        if op == "pw":
            return self.lift(lambda v: t.power(v, a[1]), [self.go(a[0])])
        if op == "fn":
            def f(*vs):
                if a[0] in ("pow", "powc"):
                    return t.power(vs[0], vs[1])
                if a[0] == "addspec":
                    return t.add(*vs)
                if a[0] == "mulspec":
                    return t.mul(*vs)
                return t.fn(a[0], *vs)
            return self.lift(f, [self.go(y) for y in a[1]])
        if op == "minmax":
            return self.lift(lambda *vs: t.minmax(a[0], *vs), [self.go(y) for y in a[1]])
        if op == "tab":
            ds = [self.go(y) for y in a[0]] + [self.go(a[1])]
            return self.lift(lambda *vs: t.tab(list(vs[:-1]), vs[-1]), ds)
        if op in ("sum", "prod", "max", "min", "any", "argmax", "argmin"):
            ax = a[0]
            m, b = self.boolean(a[1]), (self.boolean(a[2]) if op == "any" else self.go(a[2]))

            def red(mm, bb):
                L = self.lits
                mm, bb = self.undd(self.prune(mm, L)), self.undd(self.prune(bb, L))
                r = mk("prod", ax, mm, bb) if op == "prod" else t.reduce_(op, ax, bb, mm)
                return self.atom(r) if op == "any" else r
            return self.over((ax,), red, [m, b])
        if op == "count":
            return self.over((a[0],), lambda mm: t.reduce_("count", a[0], self.undd(self.prune(mm, self.lits))),
                             [self.boolean(a[1])])
        if op == "trapz":
            return self.over((a[0],), lambda y, z: t.trapz(a[0], self.undd(self.prune(y, self.lits)),
                                                             self.undd(self.prune(z, self.lits))),
                             [self.go(a[1]), self.go(a[2])])
        if op == "arr":
            axs = a[0] if isinstance(a[0], tuple) else (a[0],)
            return mk("arr", a[0], *[self.undd(self.prune(self.go(y))) for y in a[1:]])
        if op == "quad":
            return self.lift(lambda p, q, r: mk("quad", a[0], p, q, r), [self.go(a[1]), self.go(a[2]), self.go(a[3])])
        if op in ("cumsum", "nth", "rank", "interp"):
            return self.rebuild(x)
        if op == "bapp":
            return self.generic(x, True)
        return self.generic(x, False)

    def numbool(self, x):
        if x.op == "sym" and x.args[0].isbool:
            return self.atom(x)
        return x

    def lift(self, f, ds):
        return self.apply(f, [self.numdd(d) for d in ds])

    def numdd(self, d):
        """truth values used as numbers"""
        return d

    def over(self, axs, f, ds):
        """a binder: atoms that do not mention the bound indices are lifted out of it"""
        bound = set(axs)
        outer = set()
        for d in ds:
            self.outer(d, bound, outer, set())
        outer = sorted(outer, key=lambda y: y.id)
        if len(outer) > 12:
            raise Big()

        def split(i, ds, lits):
            if i == len(outer):
                self.lits = lits
                return f(*ds)
            a = outer[i]
            v = known(a, lits)
            if v is not None:
                return split(i + 1, [self.restrict(d, a, v, {}) for d in ds], lits)
            hi = split(i + 1, [self.restrict(d, a, True, {}) for d in ds], lits + ((a, True),))
            lo = split(i + 1, [self.restrict(d, a, False, {}) for d in ds], lits + ((a, False),))
            if hi is lo:
                return hi
            return self.ite(mk("dd", a, TRUE, FALSE), hi, lo)
        return split(0, ds, ())

    def outer(self, d, bound, out, seen):
        if d in seen or d.op != "dd":
            return
        seen.add(d)
        if not (d.args[0].ax & bound):
            out.add(d.args[0])
        self.outer(d.args[1], bound, out, seen)
        self.outer(d.args[2], bound, out, seen)

    def restrict(self, d, a, val, memo):
        if d.op != "dd" or d.args[0].id > a.id:
            return d
        r = memo.get(d)
        if r is None:
            if d.args[0] is a:
                r = d.args[1] if val else d.args[2]
            else:
                r = self.node(d.args[0], self.restrict(d.args[1], a, val, memo), self.restrict(d.args[2], a, val, memo))
            memo[d] = r
        return r

    def undd(self, d):
        """a diagram inside a binder, as a plain term again"""
        if d.op != "dd":
            return d
        hi, lo = self.undd(d.args[1]), self.undd(d.args[2])
        if hi is TRUE and lo is FALSE:
            return d.args[0]
        if t.is_bool(hi) and t.is_bool(lo):
            return t.ite(d.args[0], hi, lo)
        return mk("ite", d.args[0], hi, lo)

    def rebuild(self, x):
        def R(y):
            if isinstance(y, T):
                return self.undd(self.prune(self.go(y)))
            if isinstance(y, tuple):
                return tuple(R(z) for z in y)
            return y
        return mk(x.op, *[R(y) for y in x.args])

    def generic(self, x, boolean):
        ts = []

        def collect(y):
            if isinstance(y, T):
                ts.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    collect(z)
        for y in x.args:
            collect(y)
        if not ts:
            return self.atom(x) if boolean else x
        ds = [self.go(y) for y in ts]

        def f(*vs):
            it = iter(vs)

            def R(y):
                if isinstance(y, T):
                    return next(it)
                if isinstance(y, tuple):
                    return tuple(R(z) for z in y)
                return y
            r = mk(x.op, *[R(y) for y in x.args])
            return self.atom(r) if boolean else r
        return self.lift(f, ds)

    # ------------------------------------------------------ facts along a path
    def prune(self, d, lits=()):
        """remove branches the path makes impossible; simplify leaves with what the path says"""
        k = (d, lits)
        r = self.pmemo.get(k)
        if r is not None:
            return r
        self.tick()
        if d.op != "dd":
            r = self.leaf(d, lits)
        else:
            a = d.args[0]
            v = known(a, lits)
            if v is not None:
                r = self.prune(d.args[1] if v else d.args[2], lits)
            else:
                hi = self.prune(d.args[1], lits + ((a, True),))
                lo = self.prune(d.args[2], lits + ((a, False),))
                r = self.node(a, hi, lo)
        self.pmemo[k] = r
        return r

    def leaf(self, x, lits):
        if x.op in ("num", "bool", "spec", "cst") or not lits:
            return x
        env = {}
        lits = expand(lits)
        for a, v in lits:
            if a.op == "eq0":
                p = linear(a.args[0])
                if p and v and p[0].op == "sym":
                    env[p[0]] = t.num(p[1])
        qs = {linear(a.args[0])[0] for a, v in lits if a.op in ("lt0", "eq0") and linear(a.args[0])}
        for s in qs:
            if s.op == "sym" and s not in env and t.sgn(s) != "p":
                lo, strict, hi, hs, ne = bounds(s, lits)
                if lo is not None and (lo > 0 or lo == 0 and (strict or 0 in ne)):
                    dd = s.args[0]
                    env[s] = mk("sym", positive(dd), *s.args[1:])
        return t.subst(x, env) if env else x

    def term(self, x):
        return self.prune(self.go(x))


_pos = {}


def positive(d):
    r = _pos.get(d)
    if r is None:
        r = _pos[d] = t.Decl(d.name, "p", d.dom, d.isint, d.isbool)
    return r


_lin = {}


def linear(p):
    """p == 0 read as (quantity, value): p must be k*q + c with one atom q; k's sign in third place"""
    r = _lin.get(p, 0)
    if r == 0:
        r = _lin[p] = _linear(p)
    return r


def _linear(p):
    if p.op == "sym":
        return p, F(0), 1
    if p.op != "poly" or len(p.args) > 2:
        if p.op in ("num", "poly", "spec", "bool"):
            return None
        return p, F(0), 1
    q = k = None
    c0 = F(0)
    for c, m in p.args:
        if not m:
            c0 = c
        elif len(m) == 1 and m[0][1] == 1 and q is None and m[0][0].op != "num":
            q, k = m[0][0], c
        else:
            return None
    if q is None:
        return None
    return q, -c0 / k, (1 if k > 0 else -1)


def bounds(q, lits):
    """lower bound, strict?, upper bound, strict?, excluded values of q under the literals"""
    lo = hi = None
    ls = hs = False
    ne = set()
    s = t.sgn(q)
    if s:
        lo, ls = F(0), s == "p"
    for a, v in lits:
        if a.op == "eq0":
            p = linear(a.args[0])
            if p and p[0] is q:
                if v:
                    lo = hi = p[1]
                    ls = hs = False
                else:
                    ne.add(p[1])
        elif a.op == "lt0":
            p = linear(a.args[0])
            if p and p[0] is q:
                up = (p[2] > 0) == v          # v and k > 0: q < b;  not v and k < 0: q <= b ...
                strict = v
                b = p[1]
                if up:
                    if hi is None or b < hi or b == hi and strict:
                        hi, hs = b, strict
                elif lo is None or b > lo or b == lo and strict:
                    lo, ls = b, strict
    return lo, ls, hi, hs, ne


def known3(x, lits, deep=True):
    """three-valued reading of a boolean term under the literals"""
    if x is TRUE or x is FALSE:
        return x is TRUE
    if x.op == "not":
        v = known3(x.args[0], lits, deep)
        return None if v is None else not v
    if x.op == "and":
        vs = [known3(y, lits, deep) for y in x.args]
        return False if False in vs else True if all(v is True for v in vs) else None
    return known(x, lits, deep)


def expand(lits):
    """literals implied elementwise by 'no entry satisfies m'"""
    out = None
    for b, v in lits:
        if b.op == "any" and not v:
            m = t.and_(b.args[1], b.args[2])
            if m.op == "not":
                e = (m.args[0], True)
            elif m.op in ("and", "ite", "bool"):
                continue
            else:
                e = (m, False)
            if e not in lits:
                out = (out or []) + [e]
    return lits + tuple(out) if out else lits


def known(a, lits, deep=True):
    lits = expand(lits)
    for b, v in lits:
        if b is a:
            return v
    if a.op == "any":
        return True if known3(t.and_(a.args[1], a.args[2]), lits) is True else None
    r = known1(a, lits)
    if r is None and deep:
        # 'no entry satisfies m': what would make m true here is false
        for b, v in lits:
            if b.op == "any" and not v:
                m = t.and_(b.args[1], b.args[2])
                if m.op == "and" and a in atoms_of(m):
                    for w in (True, False):
                        if known3(m, lits + ((a, w),), False) is True:
                            return not w
    return r


_atoms = {}


def atoms_of(m):
    r = _atoms.get(m)
    if r is None:
        r = set()
        todo = [m]
        while todo:
            x = todo.pop()
            if x.op == "not" or x.op == "and":
                todo.extend(x.args)
            else:
                r.add(x)
        _atoms[m] = r
    return r


def known1(a, lits):
    if a.op not in ("lt0", "eq0"):
        return None
    p = linear(a.args[0])
    if p is None:
        return None
    q, b, k = p
    lo, ls, hi, hs, ne = bounds(q, lits)
    if lo is not None and lo in ne and not ls:
        ls = True
    if hi is not None and hi in ne and not hs:
        hs = True
    if a.op == "eq0":
        if b in ne or lo is not None and (b < lo or b == lo and ls) or hi is not None and (b > hi or b == hi and hs):
            return False
        if lo is not None and lo == hi == b:
            return True
        return None
    # k*q + c < 0: k > 0 -> q < b ; k < 0 -> q > b
    if k > 0:
        if hi is not None and (hi < b or hi == b and hs):
            return True
        if lo is not None and lo >= b:
            return False
    else:
        if lo is not None and (lo > b or lo == b and ls):
            return True
        if hi is not None and hi <= b:
            return False
    return None
