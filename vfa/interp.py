"""The value-flow analyser: abstract interpretation of the repository's syntax trees.

The program is never executed.  Every statement is interpreted once over abstract values (terms of terms.py);
the two arms of a branch whose condition is not decided are joined with a gate, so that no path is enumerated
and the result is one value-flow graph per analysed entry point.
"""
import ast
import hashlib
import os
import sys
from fractions import Fraction as F

from . import terms as t
from . import units as un
from .values import *

sys.setrecursionlimit(40000)
MAXITER = 400


class Budget(Exception):
    pass


class Frame:
    __slots__ = ("func", "scope", "returns", "pc0", "loops", "assigned")

    def __init__(self, func, scope, pc0):
        self.func, self.scope, self.pc0 = func, scope, pc0
        self.returns = []
        self.loops = []


PARSED = {}  # source text -> syntax tree, which is never changed


class Interp:
    def __init__(self, src_root, package="legwork"):
        self.src_root = src_root
        self.package = package
        self.mods = {}
        self.st = State()
        self.nloc = 0
        self.frames = []
        self.raises = []
        self.events = []
        self.muts = []            # (loc, pc, where)
        self.ctx = []
        self.stubs = {}
        self.unknowns = {}        # why -> count
        self.doubt = None         # the first thing not modelled in this evaluation
        self.calls = set()        # qualified names of analysed functions
        self.callstack = []
        self.sites = 0
        self.steps = 0
        self.maxsteps = 3_000_000
        self.lost = 0             # calls of values that were not understood: their effects are not known
        self.genwritten = {}      # arrays an enclosing generic loop fills, with the axes it runs over
        self.genloops = []        # axes of generic loops being analysed
        self.hook_axis_cmp = None
        self.inputs = {}
        self.scenario = {}
        self.files = {}
        self.fresh = 0
        self.rand = 0
        from . import npmodel
        self.models = npmodel.MODELS
        self.npm = npmodel
        self.bscope = npmodel.builtins()

    # ------------------------------------------------------------ heap
    def alloc(self, rec):
        self.nloc += 1
        self.st.heap[self.nloc] = rec
        return self.nloc

    def rec(self, v):
        return self.st.heap[v.loc]

    def new_list(self, items):
        return Lst(self.alloc(ListRec(items)))

    def new_dict(self, d):
        return Dct(self.alloc(DictRec(dict(d))))

    def new_obj(self, cls, attrs=None, payload=None):
        return Obj(self.alloc(ObjRec(cls, dict(attrs or {}), payload)))

    def mkarr(self, axes, e, unit=None, dt="f"):
        axes = tuple(axes)
        if not axes:
            return Sc(e, unit, "bool" if dt == "b" else ("npint" if dt == "i" else "np"))
        seen = set()
        for a in axes:
            for b in t.base_axes(a):
                if b in seen:
                    e = t.top("repeated axis")
                seen.add(b)
        return Arr(self.alloc(ArrRec(axes, e, dt)), axes, (), unit)

    def elem(self, v):
        """value term of a scalar or generic element of an array"""
        if isinstance(v, Sc):
            return v.e
        if isinstance(v, Arr):
            r = self.st.heap[v.loc]
            if isinstance(r, TopRec):
                return t.top(r.why, v.loc)
            e = r.e
            if self.genwritten and v.loc in self.genwritten:
                # inside the loop that fills this array: only the entry of this very iteration is known
                gax = self.genwritten[v.loc]
                if any(b in gax for a in v.axes for b in t.base_axes(a)) or \
                        any(a in gax and not (x.op == "idx" and x.args[0] is a) for a, x in v.sub):
                    return t.top("other entries of an array being filled", (v.loc, e, v.sub))
            if v.sub:
                env = {a: x for a, x in v.sub if not (x.op == "idx" and x.args[0] is a)}
                if env:
                    e = t.subst(e, env)
            if v.div is not None:
                e = t.div(e, v.div)
            return e
        if isinstance(v, Const):
            if isinstance(v.v, bool):
                return t.TRUE if v.v else t.FALSE
        if isinstance(v, Opq):
            return v.term
        if isinstance(v, Gate):
            return t.ite(v.c, self.elem(v.a), self.elem(v.b))
        return t.top("no numeric value: %s" % type(v).__name__)

    def dt(self, v):
        if isinstance(v, Sc):
            return {"bool": "b", "int": "i", "npint": "i"}.get(v.kind, "f")
        if isinstance(v, Arr):
            r = self.st.heap[v.loc]
            return r.dt if isinstance(r, ArrRec) else "f"
        if isinstance(v, Const) and isinstance(v.v, bool):
            return "b"
        return "f"

    def where(self):
        return t.CUR_LOC[0]

    def unknown(self, why, *keys):
        self.unknowns[why] = self.unknowns.get(why, 0) + 1
        self.doubt = self.doubt or why
        if keys:
            return Opq(t.top(why, (why,) + tuple(self.key(k) for k in keys)), "?")
        return Opq(t.top(why), "?")

    def alternatives(self, v, c, out):
        if isinstance(v, Gate):
            self.alternatives(v.a, t.and_(c, v.c), out)
            self.alternatives(v.b, t.and_(c, t.not_(v.c)), out)
        elif c is not t.FALSE:
            out.append((c, v))

    def keyalts(self, alts, total):
        """alternatives of one kind become one value; which of them are together does not depend on how the branches nest"""
        groups = {}
        for c, v in alts:
            if isinstance(v, Const) and isinstance(v.v, bool):
                v = Sc(t.TRUE if v.v else t.FALSE, None, "b")
            if isinstance(v, Sc):
                g = ("truth", None) if t.is_bool(v.e) else ("sc", self.ukey(v.unit))
            elif isinstance(v, Arr):
                g = ("arr", tuple(v.axes), self.ukey(v.unit))
            elif isinstance(v, Tup):
                g = ("tup", len(v.items))
            else:
                g = ("one", self.key(v))
            groups.setdefault(g, []).append((c, v))
        total = total and len(groups) == 1
        out = []
        for g, vs in groups.items():
            if g[0] in ("sc", "arr", "truth"):
                es = [(c, v.e if g[0] != "arr" else self.elem(v)) for c, v in vs]
                e = es.pop()[1] if total else t.ZERO
                if not total and t.is_bool(es[-1][1]):
                    e = t.FALSE
                for c, x in reversed(es):
                    e = t.ite(c, x, e)
                if g[0] == "arr":
                    axs = tuple(b for a in g[1] for b in t.base_axes(a))
                    k = ("arr", g[1], t.mk("arr", axs, e) if axs else e, g[2])
                else:
                    k = ("sc", e, g[1]) if g[0] == "sc" else ("truth", e)
            elif g[0] == "tup":
                k = ("tup",) + tuple(self.keyalts([(c, v.items[i]) for c, v in vs], total) for i in range(g[1]))
            else:
                k = g[1]
            if total:
                return k
            out.append((k, t.or_(*[c for c, v in vs])))
        return ("alternatives", frozenset(out))

    def key(self, v):
        """a hashable description of a value; equal keys denote equal values"""
        if isinstance(v, (str, int, float, bool, type(None), t.T, t.Axis, F)):
            return v
        if isinstance(v, tuple):
            return tuple(self.key(x) for x in v)
        if isinstance(v, Const):
            if isinstance(v.v, bool):
                return ("truth", t.TRUE if v.v else t.FALSE)
            return ("const", v.v if not isinstance(v.v, (list, dict, set)) else repr(v.v))
        if isinstance(v, Sc):
            if t.is_bool(v.e):
                return ("truth", v.e)
            return ("sc", v.e, self.ukey(v.unit))
        if isinstance(v, Arr):
            # the indices are bound: the key denotes the whole array
            axs = tuple(b for a in v.axes for b in t.base_axes(a))
            e = self.elem(v)
            return ("arr", tuple(v.axes), t.mk("arr", axs, e) if axs else e, self.ukey(v.unit))
        if isinstance(v, Tup):
            return ("tup",) + tuple(self.key(x) for x in v.items)
        if isinstance(v, SetV):
            return ("set",) + tuple(self.key(x) for x in v.items)
        if isinstance(v, Lst):
            r = self.rec(v)
            if isinstance(r, ListRec):
                return ("list",) + tuple(self.key(x) for x in r.items)
            if isinstance(r, GenRec):
                return ("gen", r.axis, self.key(r.value))
            return ("toplist", v.loc)
        if isinstance(v, Dct):
            r = self.rec(v)
            if isinstance(r, DictRec):
                return ("dict",) + tuple(sorted(((repr(self.key(k)), self.key(x)) for k, x in r.d.items()),
                                                key=lambda p: p[0]))
            return ("topdict", v.loc)
        if isinstance(v, Gate):
            out = []
            self.alternatives(v, t.TRUE, out)
            return self.keyalts(out, True)
        if isinstance(v, Opq):
            return ("opq", v.tag, v.term)
        if isinstance(v, UnitV):
            return ("unit", self.ukey(v.u))
        if isinstance(v, Func):
            if not isinstance(v.node, ast.Lambda) and v.scope is None:
                return ("func", v.qual)
            return ("func", hashlib.md5(ast.dump(v.node).encode()).hexdigest(), self.captures(v))
        if isinstance(v, Prim):
            return ("prim", v.name, self.key(v.data) if v.data is not None else None)
        if isinstance(v, Ext):
            return ("ext", v.path)
        if isinstance(v, Bound):
            return ("bound", self.key(v.f), self.key(v.self))
        if isinstance(v, Obj):
            return ("obj", v.loc)
        if isinstance(v, Cls):
            return ("cls", v.name)
        if isinstance(v, SliceV):
            return ("slice", self.key(v.a), self.key(v.b), self.key(v.c))
        if isinstance(v, RangeV):
            return ("range", self.key(v.a), self.key(v.b), self.key(v.s))
        if isinstance(v, Iter):
            return ("iter", v.kind, tuple(self.key(x) for x in v.items or ()), v.axis,
                    self.key(v.value) if v.value is not None else None)
        if isinstance(v, dict):
            return tuple(sorted((k, self.key(x)) for k, x in v.items()))
        return ("other", type(v).__name__, id(v))

    def captures(self, f):
        names = sorted({n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)})
        out = []
        for n in names:
            v = self.lookup_from(f.scope, f.mod, n)
            if v is not None and not isinstance(v, (Func, Cls, Obj)):
                try:
                    out.append((n, self.key(v)))
                except RecursionError:
                    pass
            elif isinstance(v, Func) and v is not f:
                out.append((n, v.qual))
        return tuple(out)

    loose_units = False

    def ukey(self, u):
        if self.loose_units:
            # the unit a value is expressed in does not matter, its dimension does
            return (0, 0, 0) if u is None else u.norad()
        return None if u is None else (u.scale, u.dims)

    # ------------------------------------------------------------ errors
    def raise_(self, exc, msg="", kind="raise"):
        self.raises.append(Raised(self.st.pcterm(), exc, msg, self.where(), self.st.clone(), kind,
                                  self.st.pc, self.doubt))
        raise Dead()

    def raise_if(self, c, exc, msg="", kind="raise"):
        """raise when term c holds; continue otherwise"""
        v = t._known(c, self.st.lits) if c not in (t.TRUE, t.FALSE) else (c is t.TRUE)
        if v is True:
            self.raise_(exc, msg, kind)
        if v is False:
            return
        s = self.st.clone()
        s.assume(c)
        self.raises.append(Raised(s.pcterm(), exc, msg, self.where(), s, kind, s.pc, self.doubt))
        self.st.assume(c, False)

    # ------------------------------------------------------------ gates
    def res(self, v):
        """resolve a gate with what is known here"""
        while isinstance(v, Gate):
            k = self.known(v.c)
            if k is True:
                v = v.a
            elif k is False:
                v = v.b
            else:
                break
        return v

    def known(self, c):
        if c is t.TRUE:
            return True
        if c is t.FALSE:
            return False
        return t._known(c, self.st.lits)

    def fork(self, c, fa, fb):
        """evaluate fa() under c and fb() under not c, join states and values"""
        k = self.known(c)
        if k is True:
            return fa()
        if k is False:
            return fb()
        base = self.st
        A = base.clone()
        A.assume(c)
        B = base.clone()
        B.assume(c, False)
        self.st = A
        try:
            va, oka = fa(), True
        except Dead:
            va, oka = None, False
        A = self.st
        self.st = B
        try:
            vb, okb = fb(), True
        except Dead:
            vb, okb = None, False
        B = self.st
        if oka and okb:
            self.st = self.join(c, A, B, base)
            return self.merge(c, va, vb)
        if oka:
            self.st = A
            return va
        if okb:
            self.st = B
            return vb
        raise Dead()

    def join(self, c, A, B, base):
        heap = {}
        ha, hb = A.heap, B.heap
        for loc, ra in ha.items():
            rb = hb.get(loc)
            if rb is None or rb is ra:
                heap[loc] = ra
            else:
                heap[loc] = self.join_rec(c, ra, rb)
        for loc, rb in hb.items():
            if loc not in ha:
                heap[loc] = rb
        st = State(heap, dict(base.lits), base.pc)
        # arms that partly died leave facts: keep the disjunction
        ea, eb = A.pc[len(base.pc):], B.pc[len(base.pc):]
        if len(ea) > 1 or len(eb) > 1:
            d = t.or_(t.and_(*ea), t.and_(*eb))
            if d is not t.TRUE:
                st.assume(d)
        return st

    def join_rec(self, c, a, b):
        if type(a) is not type(b):
            return TopRec("joined records of different kinds")
        if isinstance(a, ArrRec):
            if a.axes == b.axes:
                return ArrRec(a.axes, t.ite(c, a.e, b.e), a.dt if a.dt == b.dt else "f")
            return TopRec("joined arrays of different shapes")
        if isinstance(a, ScopeRec):
            vs = {}
            for k in {**a.vars, **b.vars}:
                x, y = a.vars.get(k), b.vars.get(k)
                if x is None or y is None:
                    vs[k] = x if y is None else y
                elif x is y:
                    vs[k] = x
                else:
                    vs[k] = self.merge(c, x, y, named=True)
            return ScopeRec(vs, a.parent, a.glob, a.nonloc)
        if isinstance(a, ObjRec):
            vs = {}
            for k in {**a.attrs, **b.attrs}:
                x, y = a.attrs.get(k, ABSENT), b.attrs.get(k, ABSENT)
                vs[k] = x if x is y else self.merge(c, x, y, named=True)
            return ObjRec(a.cls, vs, a.payload)
        if isinstance(a, DictRec):
            vs = {}
            for k in {**a.d, **b.d}:
                x, y = a.d.get(k, ABSENT), b.d.get(k, ABSENT)
                vs[k] = x if x is y else self.merge(c, x, y, named=True)
            return DictRec(vs, a.unknown or b.unknown)
        if isinstance(a, ListRec):
            if len(a.items) == len(b.items):
                return ListRec([self.merge(c, x, y, named=True) for x, y in zip(a.items, b.items)])
            return TopRec("joined lists of different lengths")
        if isinstance(a, GenRec):
            if a.axis is b.axis:
                return GenRec(a.axis, self.merge(c, a.value, b.value))
        return TopRec("joined records")

    def merge(self, c, a, b, named=False):
        if a is b:
            return a
        if isinstance(a, Const) and isinstance(b, Const) and type(a.v) is type(b.v) and a.v == b.v:
            return a
        na = isinstance(a, Sc) or (isinstance(a, Const) and isinstance(a.v, bool))
        nb = isinstance(b, Sc) or (isinstance(b, Const) and isinstance(b.v, bool))
        if na and nb:
            ua, ub = getattr(a, "unit", None), getattr(b, "unit", None)
            if (ua is None) == (ub is None) and (ua is None or ua.same(ub)):
                ea, eb = self.elem(a), self.elem(b)
                e = t.ite(c, ea, eb)
                ka = a.kind if isinstance(a, Sc) else "bool"
                kb = b.kind if isinstance(b, Sc) else "bool"
                if e is t.TRUE or e is t.FALSE:
                    return Const(e is t.TRUE)
                return Sc(e, ua, ka if ka == kb else "np")
            return Gate(c, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.loc == b.loc and a.axes == b.axes and a.sub == b.sub and a.div is b.div and \
                    (a.unit is b.unit or (a.unit and b.unit and a.unit.same(b.unit))):
                return a
            if not named and a.axes == b.axes and (
                    (a.unit is None and b.unit is None) or (a.unit and b.unit and a.unit.same(b.unit))):
                return self.mkarr(a.axes, t.ite(c, self.elem(a), self.elem(b)), a.unit,
                                  self.dt(a) if self.dt(a) == self.dt(b) else "f")
            return Gate(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge(c, x, y, named) for x, y in zip(a.items, b.items)])
        if type(a) is type(b):
            if isinstance(a, (Lst, Dct, Obj, AttrDict)) and a.loc == b.loc:
                return a
            if isinstance(a, Ext) and a == b:
                return a
            if isinstance(a, UnitV) and a.u.same(b.u):
                return a
            if isinstance(a, Opq) and a.term is b.term and a.tag == b.tag:
                return a
            if isinstance(a, Bound) and a.f is b.f and self.merge(c, a.self, b.self) is a.self:
                return a
        if isinstance(a, Gate) and a.c is c:
            a = a.a
            return self.merge(c, a, b, named)
        if isinstance(b, Gate) and b.c is c:
            b = b.b
            return self.merge(c, a, b, named)
        return Gate(c, a, b)

    def dist(self, f, *args):
        """apply f to args, distributing over gates"""
        for i, a in enumerate(args):
            if isinstance(a, Gate):
                a = self.res(a)
                if isinstance(a, Gate):
                    g = a
                    return self.fork(g.c, lambda: self.dist(f, *args[:i], g.a, *args[i + 1:]),
                                     lambda: self.dist(f, *args[:i], g.b, *args[i + 1:]))
                args = args[:i] + (a,) + args[i + 1:]
        return f(*args)

    # ------------------------------------------------------------ modules
    def load_package(self):
        pk = self.package
        d = os.path.join(self.src_root, pk)
        self.load_module(pk, os.path.join(d, "__init__.py"))

    def load_module(self, name, path=None):
        if name in self.mods:
            return self.mods[name]
        if path is None:
            rel = name.split(".")
            base = os.path.join(self.src_root, *rel)
            path = base + ".py" if os.path.exists(base + ".py") else os.path.join(base, "__init__.py")
        if not os.path.exists(path):
            return None
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        tree = PARSED.get((src, path))
        if tree is None:
            tree = PARSED[(src, path)] = ast.parse(src, path)
        m = Mod(name, None, tree, path)
        self.mods[name] = m
        m.ns = self.alloc(ScopeRec({"__name__": Const(name), "__file__": Const(path)}, None))
        fr = Frame(None, m.ns, 0)
        self.frames.append(fr)
        saved = t.CUR_LOC[0]
        self.callstack.append(name)
        try:
            self.block(tree.body, m)
        except Dead:
            pass
        finally:
            self.frames.pop()
            self.callstack.pop()
            t.CUR_LOC[0] = saved
        return m

    def ns(self, mod):
        return self.st.heap[mod.ns].vars

    # ------------------------------------------------------------ scopes
    @property
    def mod(self):
        f = self.frames[-1]
        return f.func.mod if f.func is not None else self._mod_of_scope(f.scope)

    def _mod_of_scope(self, scope):
        for m in self.mods.values():
            if m.ns == scope:
                return m
        return getattr(self, "_cls_mod", None)

    def lookup_from(self, scope, mod, name):
        while scope is not None:
            r = self.st.heap.get(scope)
            if r is None:
                break
            if name in r.vars:
                return r.vars[name]
            scope = r.parent
        if mod is not None and name in self.st.heap[mod.ns].vars:
            return self.st.heap[mod.ns].vars[name]
        return self.bscope.get(name)

    def lookup(self, name, mod):
        v = self.lookup_from(self.frames[-1].scope, mod, name)
        if v is None:
            if self.frames[-1].func is not None or True:
                self.raise_("NameError", name, kind="name")
        return v

    def assign_name(self, name, v):
        scope = self.frames[-1].scope
        r = self.st.heap[scope]
        if name in r.glob:
            fr = self.frames[-1]
            scope = fr.func.mod.ns
            r = self.st.heap[scope]
        elif name in r.nonloc:
            p = r.parent
            while p is not None and name not in self.st.heap[p].vars:
                p = self.st.heap[p].parent
            if p is not None:
                scope, r = p, self.st.heap[p]
        vs = dict(r.vars)
        vs[name] = v
        self.st.heap[scope] = ScopeRec(vs, r.parent, r.glob, r.nonloc)

    # ------------------------------------------------------------ statements
    def block(self, stmts, mod):
        for s in stmts:
            self.stmt(s, mod)

    def stmt(self, s, mod):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget()
        t.CUR_LOC[0] = (mod.file, s.lineno, self.callstack[-1] if self.callstack else "?")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown("statement " + type(s).__name__)
            return
        m(s, mod)

    def run(self, stmts, mod):
        try:
            self.block(stmts, mod)
            return True
        except Dead:
            return False

    def s_Expr(self, s, mod):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, mod)

    def s_Pass(self, s, mod):
        pass

    def s_Import(self, s, mod):
        for a in s.names:
            top_ = a.name if a.asname else a.name.split(".")[0]
            v = Ext(top_)
            if top_.split(".")[0] == self.package or top_ in self.mods:
                v = self.load_module(top_) or v
            self.assign_name(a.asname or top_, v)

    def s_ImportFrom(self, s, mod):
        base = s.module or ""
        if s.level:
            parts = mod.name.split(".")
            if not mod.file.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == "*":
                m = self.load_module(base) if base.split(".")[0] == self.package else None
                if m:
                    for k, v in self.ns(m).items():
                        if not k.startswith("_"):
                            self.assign_name(k, v)
                continue
            v = None
            if base.split(".")[0] == self.package or base in self.mods:
                m = self.load_module(base)
                if m is not None and a.name in self.ns(m):
                    v = self.ns(m)[a.name]
                if v is None:
                    v = self.load_module(base + "." + a.name)
                if v is None:
                    v = self.unknown("import %s.%s" % (base, a.name))
            else:
                v = Ext(base + "." + a.name)
            self.assign_name(a.asname or a.name, v)

    def s_FunctionDef(self, s, mod):
        self.assign_name(s.name, self.make_func(s, mod))

    def make_func(self, s, mod, cls=None, qual=None):
        defaults = [self.ev(d, mod) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, mod) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        scope = self.frames[-1].scope
        name = getattr(s, "name", "<lambda>")
        if qual is None:
            qual = "%s.%s" % (self.callstack[-1] if self.callstack else mod.name, name)
        if scope == mod.ns:
            scope = None
        f = Func(s, scope, mod, name, defaults, kwd, cls, qual)
        v = f
        for d in reversed(getattr(s, "decorator_list", [])):
            v = self.decorate(d, v, mod)
        return v

    def decorate(self, d, v, mod):
        if isinstance(d, ast.Name) and d.id in ("property", "classmethod", "staticmethod") and \
                self.lookup_from(self.frames[-1].scope, mod, d.id) is self.bscope.get(d.id):
            return Prop(v) if d.id == "property" else Static(v, d.id)
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            p = self.ev(d.value, mod)
            if isinstance(p, Prop):
                return Prop(p.fget, v) if d.attr == "setter" else p
        dv = self.ev(d, mod)
        return self.call(dv, [v], {})

    def s_AsyncFunctionDef(self, s, mod):
        self.assign_name(s.name, self.unknown("async function"))

    def s_ClassDef(self, s, mod):
        bases = [self.ev(b, mod) for b in s.bases]
        scope = self.alloc(ScopeRec({}, self.frames[-1].scope if self.frames[-1].scope != mod.ns else None))
        fr = Frame(None, scope, 0)
        fr.func = _ClsFrame(mod)
        self.frames.append(fr)
        self.callstack.append("%s.%s" % (self.callstack[-1], s.name))
        cls = Cls(s.name, bases, {}, mod, s)
        try:
            for b in s.body:
                t.CUR_LOC[0] = (mod.file, b.lineno, self.callstack[-1])
                if isinstance(b, ast.FunctionDef):
                    # methods do not see the class scope
                    v = self.make_func(b, mod, cls)
                    self._fixscope(v, self.st.heap[scope].parent)
                    self.assign_name(b.name, v)
                else:
                    self.stmt(b, mod)
        finally:
            self.frames.pop()
            self.callstack.pop()
        cls.ns.update(self.st.heap[scope].vars)
        v = cls
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, mod)
        self.assign_name(s.name, v)

    def _fixscope(self, v, parent):
        if isinstance(v, Func):
            v.scope = parent
        elif isinstance(v, Prop):
            self._fixscope(v.fget, parent)
            if v.fset:
                self._fixscope(v.fset, parent)
        elif isinstance(v, Static):
            self._fixscope(v.f, parent)

    def s_Return(self, s, mod):
        v = self.ev(s.value, mod) if s.value is not None else NONE
        self.frames[-1].returns.append((self.st, v))
        raise Dead()

    def s_Assign(self, s, mod):
        v = self.ev(s.value, mod)
        for tg in s.targets:
            self.assign(tg, v, mod)

    def s_AnnAssign(self, s, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, mod), mod)

    def s_NamedExpr(self, s, mod):
        pass

    def assign(self, tg, v, mod):
        if isinstance(tg, ast.Name):
            self.assign_name(tg.id, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            self.unpack(tg.elts, v, mod)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, mod)
            self.setattr(o, tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, mod)
            k = self.ev_index(tg.slice, mod)
            o1 = self.res(o)
            if isinstance(o1, Sc) and isinstance(tg.value, (ast.Name, ast.Attribute)):
                # a zero-dimensional array: the only places are "all of it", or it under a truth value
                k1 = self.res(k)
                if isinstance(k1, Const) and k1.v is Ellipsis or isinstance(k1, Tup) and not k1.items:
                    self.assign(tg.value, v, mod)
                    return
                if isinstance(k1, (Sc, Const)):
                    fn = self.models["numpy.where"]
                    new = fn(self, [k1, v, o1], {}) if callable(fn) else self.call(fn, [k1, v, o1], {})
                    self.assign(tg.value, new, mod)
                    return
            self.setitem(o, k, v)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, mod)
        else:
            self.unknown("assignment target")

    def unpack(self, elts, v, mod):
        v = self.res(v)
        if isinstance(v, Gate):
            # unpack both sides into gated items
            n = len(elts)
            xs = self.try_items(v.a, n)
            ys = self.try_items(v.b, n)
            if xs is None or ys is None:
                items = [self.unknown("unpack") for _ in elts]
            else:
                items = [self.merge(v.c, x, y) for x, y in zip(xs, ys)]
        else:
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if star:
                it = self.iterate(v)
                if it is not None and it.kind == "items":
                    i = star[0]
                    k = len(elts) - i - 1
                    xs = it.items
                    items = list(xs[:i]) + [self.new_list(xs[i:len(xs) - k])] + list(xs[len(xs) - k:])
                else:
                    items = [self.unknown("unpack") for _ in elts]
            else:
                items = self.try_items(v, len(elts))
                if items is None:
                    items = [self.unknown("unpack", v, i) for i in range(len(elts))]
        for e, x in zip(elts, items):
            self.assign(e, x, mod)

    def try_items(self, v, n):
        if isinstance(v, Arr) and v.axes and v.axes[0].kind != "n":
            return [self.getitem(v, Sc(t.num(i), None, "int")) for i in range(n)]
        it = self.iterate(v)
        if it is None or it.kind != "items":
            return None
        if len(it.items) != n:
            self.raise_("ValueError", "unpacking %d values into %d targets" % (len(it.items), n), kind="shape")
        return it.items

    def s_AugAssign(self, s, mod):
        v = self.ev(s.value, mod)
        tg = s.target
        if isinstance(tg, ast.Name):
            old = self.lookup(tg.id, mod)
            self.assign_name(tg.id, self.iop(type(s.op).__name__, old, v))
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, mod)
            old = self.getattr(o, tg.attr)
            self.setattr(o, tg.attr, self.iop(type(s.op).__name__, old, v))
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, mod)
            k = self.ev_index(tg.slice, mod)
            old = self.getitem(o, k)
            if isinstance(old, Arr):
                # the indexed part may be a copy: compute and store back
                self.setitem(o, k, self.binop(type(s.op).__name__, old, v))
            else:
                self.setitem(o, k, self.iop(type(s.op).__name__, old, v))

    def iop(self, op, old, v):
        """in-place operator: returns the value to rebind"""
        old = self.res(old)
        if isinstance(old, Gate):
            return self.dist(lambda o: self.iop(op, o, v), old)
        if isinstance(old, Arr):
            new = self.binop(op, old, v)
            if isinstance(new, Gate):
                new = self.res(new)
            if isinstance(new, Arr) and new.axes == old.axes:
                u = new.unit
                self.store(old, SliceV(NONE, NONE, NONE), new, quiet=True)
                return Arr(old.loc, old.axes, old.sub, u, old.div)
            if isinstance(new, Sc):
                self.store(old, SliceV(NONE, NONE, NONE), new, quiet=True)
                return old
            return new
        if isinstance(old, Lst) and op == "Add":
            r = self.rec(old)
            it = self.iterate(v)
            if isinstance(r, ListRec) and it is not None and it.kind == "items":
                self.st.heap[old.loc] = ListRec(list(r.items) + list(it.items))
                return old
            self.st.heap[old.loc] = TopRec("list +=")
            return old
        if isinstance(old, (Dct, Obj)) and op == "BitOr":
            m = None
            if isinstance(old, Obj):
                m = self.find_attr(old, "__ior__")
            if m is not None:
                return self.call(m, [v], {})
            if isinstance(old, Dct):
                self.npm.dict_update(self, old, v)
                return old
            p = self.payload(old)
            if p is not None:
                self.npm.dict_update(self, p, v)
                return old
        return self.binop(op, old, v)

    def payload(self, o):
        r = self.st.heap[o.loc]
        return Dct(r.payload) if isinstance(r, ObjRec) and r.payload is not None else None

    def s_Delete(self, s, mod):
        for tg in s.targets:
            if isinstance(tg, ast.Subscript):
                o = self.ev(tg.value, mod)
                k = self.ev_index(tg.slice, mod)
                self.delitem(o, k)
            elif isinstance(tg, ast.Name):
                pass
            elif isinstance(tg, ast.Attribute):
                o = self.ev(tg.value, mod)
                if isinstance(o, Obj):
                    r = self.st.heap[o.loc]
                    at = dict(r.attrs)
                    at.pop(tg.attr, None)
                    self.st.heap[o.loc] = ObjRec(r.cls, at, r.payload)

    def delitem(self, o, k):
        if isinstance(o, Obj):
            m = self.find_attr(o, "__delitem__")
            if m is not None:
                return self.call(m, [k], {})
            p = self.payload(o)
            if p is not None:
                return self.delitem(p, k)
        if isinstance(o, Dct):
            r = self.rec(o)
            if isinstance(r, DictRec):
                d = dict(r.d)
                kk = self.dkey(k)
                if kk in d:
                    del d[kk]
                    self.st.heap[o.loc] = DictRec(d, r.unknown)
                    return
        self.unknown("delete item")

    def s_Assert(self, s, mod):
        c = self.truth(self.ev(s.test, mod))
        self.raise_if(t.not_(c), "AssertionError", ast.unparse(s.test)[:60])

    def s_Raise(self, s, mod):
        name, msg = "Exception", ""
        if s.exc is not None:
            e = s.exc
            v = self.ev(e, mod)
            name = self.exc_name(v)
        else:
            name = "<reraise>"
        self.raise_(name, msg)

    def exc_name(self, v):
        v = self.res(v)
        if isinstance(v, Opq) and v.tag == "exc":
            return v.info
        if isinstance(v, Ext):
            return v.path.split(".")[-1]
        if isinstance(v, Cls):
            return v.name
        if isinstance(v, Obj):
            r = self.st.heap[v.loc]
            if isinstance(r, ObjRec) and isinstance(r.cls, Cls):
                return self.exc_base(r.cls)
        if isinstance(v, Prim):
            return v.name
        return "Exception"

    def exc_base(self, cls):
        return cls.name

    def s_Global(self, s, mod):
        r = self.st.heap[self.frames[-1].scope]
        self.st.heap[self.frames[-1].scope] = ScopeRec(r.vars, r.parent, tuple(r.glob) + tuple(s.names), r.nonloc)

    def s_Nonlocal(self, s, mod):
        r = self.st.heap[self.frames[-1].scope]
        self.st.heap[self.frames[-1].scope] = ScopeRec(r.vars, r.parent, r.glob, tuple(r.nonloc) + tuple(s.names))

    def s_If(self, s, mod):
        c = self.cond(s.test, mod)
        k = self.known(c)
        if k is True:
            return self.block(s.body, mod)
        if k is False:
            return self.block(s.orelse, mod)
        self.fork(c, lambda: self.block(s.body, mod), lambda: self.block(s.orelse, mod))

    def cond(self, e, mod):
        return self.truth(self.ev(e, mod))

    def s_With(self, s, mod):
        n = 0
        exits = []
        for it in s.items:
            cm = self.ev(it.context_expr, mod)
            v, ex = self.npm.enter_context(self, cm)
            exits.append(ex)
            self.ctx.append(cm)
            n += 1
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, mod)
        try:
            self.block(s.body, mod)
        finally:
            for _ in range(n):
                self.ctx.pop()
            for ex in exits:
                if ex:
                    ex()

    def s_Try(self, s, mod):
        mark = len(self.raises)
        pc0 = len(self.st.pc)
        base = self.st.clone()
        ok = self.run(s.body, mod)
        if ok and s.orelse:
            ok = self.run(s.orelse, mod)
        cur = self.st
        mine = self.raises[mark:]
        rest = []
        handled = []
        for r in mine:
            for h in s.handlers:
                if self.handles(h, r.exc, mod):
                    handled.append((r, h))
                    break
            else:
                rest.append(r)
        self.raises[mark:] = rest
        outs = []
        for r, h in handled:
            self.st = r.state.clone()
            if h.name:
                self.assign_name(h.name, Opq(t.top("exception", r.exc), "exc", r.exc))
            if self.run(h.body, mod):
                outs.append((t.and_(*r.pcs[pc0:]), self.st))
        st = cur if ok else None
        for c, o in outs:
            if st is None:
                st = o
            else:
                b = State(base.heap, base.lits, base.pc)
                st = self.join(c, o, st, b)
        if st is None:
            self.st = base
            if s.finalbody:
                self.block(s.finalbody, mod)
            raise Dead()
        self.st = st
        if s.finalbody:
            self.block(s.finalbody, mod)

    s_TryStar = s_Try

    def handles(self, h, exc, mod):
        if h.type is None:
            return True
        v = self.ev(h.type, mod)
        names = []
        for x in (v.items if isinstance(v, Tup) else [v]):
            names.append(self.exc_name(x))
        return any(self.npm.exc_isa(exc, n) for n in names)

    def s_Break(self, s, mod):
        self.frames[-1].loops[-1]["breaks"].append(self.st)
        raise Dead()

    def s_Continue(self, s, mod):
        self.frames[-1].loops[-1]["conts"].append(self.st)
        raise Dead()

    def join_many(self, states, base):
        """states: list of State, each extending base.pc"""
        st = states[-1]
        for s in reversed(states[:-1]):
            c = t.and_(*s.pc[len(base.pc):])
            st = self.join(c, s, st, base)
        return st

    def s_For(self, s, mod):
        itv = self.res(self.ev(s.iter, mod))
        if isinstance(itv, Gate):
            def go(v):
                def f():
                    self.for_over(s, v, mod)
                return f
            self.fork(itv.c, go(itv.a), go(itv.b))
            return
        self.for_over(s, itv, mod)

    def for_over(self, s, itv, mod):
        itv = self.res(itv)
        if isinstance(itv, Gate):
            return self.fork(itv.c, lambda: self.for_over(s, itv.a, mod), lambda: self.for_over(s, itv.b, mod))
        it = self.iterate(itv)
        if it is None:
            return self.havoc(s, mod, [itv])
        if it.kind == "items":
            if len(it.items) > MAXITER:
                return self.havoc(s, mod, [itv])
            loop = {"breaks": [], "conts": []}
            self.frames[-1].loops.append(loop)
            exits = []
            base0 = self.st
            alive = True
            try:
                for x in it.items:
                    if isinstance(x, _Cond):
                        # element present only under a condition
                        pres, x = x.c, x.v
                    else:
                        pres = t.TRUE
                    base = State(dict(self.st.heap), dict(self.st.lits), self.st.pc)
                    loop["conts"] = []
                    nb = len(loop["breaks"])

                    def body():
                        self.assign(s.target, x, mod)
                        self.block(s.body, mod)
                    try:
                        if pres is t.TRUE:
                            body()
                        else:
                            self.fork(pres, body, lambda: None)
                        ok = True
                    except Dead:
                        ok = False
                    outs = list(loop["conts"]) + ([self.st] if ok else [])
                    if not outs:
                        alive = False
                        break
                    if len(outs) == 1:
                        self.st = outs[0]
                    else:
                        self.st = self.join_many(outs, base)
            finally:
                self.frames[-1].loops.pop()
            outs = []
            if alive:
                okelse = True
                if s.orelse:
                    okelse = self.run(s.orelse, mod)
                if okelse:
                    outs.append(self.st)
            outs = loop["breaks"] + outs
            if not outs:
                raise Dead()
            if len(outs) == 1:
                self.st = outs[0]
            else:
                self.st = self.join_many(outs, base0)
            return
        # generic iteration over an axis
        self.for_generic(s, it, mod)

    # -- one generic iteration stands for all of them
    def for_generic(self, s, it, mod):
        ax = it.axis
        tag = hashlib.md5(ast.dump(s).encode()).hexdigest()
        names = assigned_names(s.body) | assigned_names([s.target]) if not isinstance(s.target, ast.Name) else \
            assigned_names(s.body)
        fr = self.frames[-1]
        if any(isinstance(n, (ast.Break, ast.Return)) for b in s.body for n in ast.walk(b)):
            return self.havoc(s, mod, [])
        base = self.st
        # dry run to find what changes
        self.st = base.clone()
        saved = (len(self.raises), len(self.events), len(self.muts))
        loop = {"breaks": [], "conts": []}
        fr.loops.append(loop)
        self.genloops.append(ax)
        try:
            self.assign(s.target, it.value, mod)
            ok = self.run(s.body, mod)
            dry = self.st
            outs = loop["conts"] + ([dry] if ok else [])
            if not outs:
                fr.loops.pop()
                self.genloops.pop()
                raise Dead()
            if len(outs) > 1:
                dry = self.join_many(outs, base)
            else:
                dry = outs[0]
        except Dead:
            raise
        changed = [l for l, r in base.heap.items() if dry.heap.get(l) is not r]
        # second run with placeholders for loop-carried values
        self.raises[saved[0]:], self.events[saved[1]:], self.muts[saved[2]:] = [], [], []
        run = base.clone()
        place = {}
        for l in changed:
            r = base.heap[l]
            if isinstance(r, ArrRec) and not any(ax in t.base_axes(a) or a is ax for a in r.axes):
                ph = t.sym("$acc:%s:%d" % (tag, len(place)), sum((t.base_axes(a) for a in r.axes), ()))
                place[("a", l)] = (ph, r.e)
                run.heap[l] = ArrRec(r.axes, ph, r.dt)
            elif isinstance(r, ScopeRec):
                vs = dict(r.vars)
                nr = dry.heap[l]
                for k, v in r.vars.items():
                    if nr.vars.get(k) is not v and isinstance(v, Sc):
                        ph = t.sym("$acc:%s:%s" % (tag, k), isint=v.kind == "int")
                        place[("s", l, k)] = (ph, v)
                        vs[k] = Sc(ph, v.unit, v.kind)
                run.heap[l] = ScopeRec(vs, r.parent, r.glob, r.nonloc)
        run0 = run.clone()
        self.st = run
        loop["conts"] = []
        outer = self.genwritten
        gax = frozenset(t.base_axes(ax))
        self.genwritten = dict(outer)
        for l in changed:
            r = base.heap[l]
            if isinstance(r, ArrRec) and any(b in gax for a in r.axes for b in t.base_axes(a)):
                self.genwritten[l] = outer.get(l, frozenset()) | gax
        try:
            self.assign(s.target, it.value, mod)
            ok = self.run(s.body, mod)
        finally:
            self.genwritten = outer
        outs = loop["conts"] + ([self.st] if ok else [])
        end = self.join_many(outs, run0) if len(outs) > 1 else outs[0]
        fr.loops.pop()
        self.genloops.pop()
        last = t.sub(t.size_of(ax), t.ONEN)
        phs = {p[0] for p in place.values()}
        res = State(dict(end.heap), dict(base.lits), base.pc)
        for l in base.heap:
            r0, r1 = run0.heap.get(l), end.heap.get(l)
            if r0 is r1:
                res.heap[l] = base.heap[l]
                continue
            rb = base.heap[l]
            if isinstance(r1, ArrRec):
                if ("a", l) in place:
                    ph, old = place[("a", l)]
                    res.heap[l] = ArrRec(r1.axes, self.close_acc(r1.e, ph, old, ax, phs), r1.dt)
                else:
                    if any(ph in t.nodes(r1.e).values() for ph in phs):
                        res.heap[l] = TopRec("loop-carried array")
                    else:
                        res.heap[l] = r1
            elif isinstance(r1, ScopeRec):
                vs = {}
                for k, v in r1.vars.items():
                    if r0 is not None and r0.vars.get(k) is v:
                        vs[k] = rb.vars.get(k, v)
                        continue
                    if ("s", l, k) in place and isinstance(v, Sc):
                        ph, old = place[("s", l, k)]
                        vs[k] = Sc(self.close_acc(v.e, ph, old.e, ax, phs), v.unit, v.kind)
                    elif isinstance(v, Sc):
                        if any(p in t.nodes(v.e).values() for p in phs):
                            self.unknown("loop-carried value")
                            start = tuple(sorted(((repr(n), self.key(o if isinstance(o, t.T) else o.e))
                                                  for n, (p, o) in ((p.args[0].name, place[w]) for w, (p, _) in place.items())),
                                                 key=lambda x: x[0]))
                            vs[k] = Opq(t.top("loop-carried value", (tag, k, v.e, ax, start)), "?")
                        else:
                            vs[k] = Sc(t.subst(v.e, {ax: last}), v.unit, v.kind)
                    elif isinstance(v, Arr):
                        rr = end.heap.get(v.loc)
                        if v.loc in base.heap or not isinstance(rr, ArrRec):
                            vs[k] = v
                        else:
                            vs[k] = v
                    else:
                        vs[k] = v
                res.heap[l] = ScopeRec(vs, r1.parent, r1.glob, r1.nonloc)
            elif isinstance(r1, ListRec) and isinstance(rb, ListRec):
                if len(rb.items) == 0 and len(r1.items) == 1:
                    res.heap[l] = GenRec(ax, r1.items[0])
                else:
                    res.heap[l] = TopRec("list built in a loop")
            elif isinstance(r1, (DictRec, ObjRec)):
                res.heap[l] = r1 if not self._mentions(r1, ax, phs) else TopRec("object changed in a loop")
            else:
                res.heap[l] = TopRec("changed in a loop")
        self.st = res
        if s.orelse:
            self.block(s.orelse, mod)

    def _mentions(self, r, ax, phs):
        vals = list(r.d.values()) if isinstance(r, DictRec) else list(r.attrs.values())
        for v in vals:
            if isinstance(v, Sc) and (ax in v.e.ax or any(p in t.nodes(v.e).values() for p in phs)):
                return True
        return False

    def close_acc(self, new, ph, old, ax, phs):
        """closed form of an accumulator over a generic loop"""
        if t.is_bool(new):
            return t.top("boolean accumulator")
        p = t.to_poly(new)
        m = ((ph, F(1)),)
        c = p.pop(m, None)
        if c == 1:
            rest = t.from_poly(p)
            if not any(q in t.nodes(rest).values() for q in phs):
                return t.add(old, t.reduce_("sum", ax, rest))
        if not any(q in t.nodes(new).values() for q in phs):
            return t.subst(new, {ax: t.sub(t.size_of(ax), t.ONEN)})
        if new.op == "ite" and new.args[2] is ph:
            # conditional accumulation
            p = t.to_poly(new.args[1])
            c = p.pop(m, None)
            rest = t.from_poly(p)
            if c == 1 and not any(q in t.nodes(rest).values() or q in t.nodes(new.args[0]).values()
                                  for q in phs):
                return t.add(old, t.reduce_("sum", ax, t.ite(new.args[0], rest, t.ZERO)))
        if new.op == "minmax" and ph in new.args[1]:
            rest = [x for x in new.args[1] if x is not ph]
            if not any(q in t.nodes(x).values() for q in phs for x in rest):
                return t.minmax(new.args[0], old, t.reduce_(new.args[0], ax, t.minmax(new.args[0], *rest)))
        return t.top("loop-carried value", (t.show(new, 3), ax.id))

    def s_While(self, s, mod):
        # a condition that is decided is unrolled a little; anything else is forgotten
        for n in range(60):
            c = self.cond(s.test, mod)
            k = self.known(c)
            if k is False:
                if s.orelse:
                    self.block(s.orelse, mod)
                return
            if k is None or any(isinstance(x, (ast.Break, ast.Continue)) for b in s.body for x in ast.walk(b)):
                return self.havoc(s, mod, [])
            self.block(s.body, mod)
        self.havoc(s, mod, [])

    def havoc(self, s, mod, extra):
        """forget everything a loop may change; the unknown results are keyed by the loop and its inputs"""
        names = assigned_names([s])
        h = hashlib.md5(ast.dump(s).encode()).hexdigest()
        reads = sorted({n.id for n in ast.walk(s) if isinstance(n, ast.Name)})
        ks = []
        for n in reads:
            v = self.lookup_from(self.frames[-1].scope, mod, n)
            if v is not None and not isinstance(v, (Func, Cls, Mod, Ext, Prim)):
                if isinstance(v, Obj):
                    r = self.st.heap[v.loc]
                    attrs = sorted({a.attr for a in ast.walk(s) if isinstance(a, ast.Attribute)})
                    for a in attrs:
                        if isinstance(r, ObjRec) and a in r.attrs and not isinstance(r.attrs[a], Obj):
                            ks.append((n, a, self.key(r.attrs[a])))
                        elif isinstance(r, ObjRec) and isinstance(r.cls, Cls):
                            try:
                                if isinstance(self.class_attr(r.cls, a), Prop):
                                    ks.append((n, a, self.key(self.getattr(v, a))))
                            except Dead:
                                pass
                else:
                    ks.append((n, self.key(v)))
        ks = tuple(ks)
        for n in names:
            v = self.lookup_from(self.frames[-1].scope, mod, n)
            if isinstance(v, Arr):
                r = self.st.heap[v.loc]
                if isinstance(r, ArrRec):
                    e = t.top("loop result", (h, n, ks))
                    axs = sum((t.base_axes(a) for a in r.axes), ())
                    self.st.heap[v.loc] = ArrRec(r.axes, t.mk("top", "loop result", (h, n, ks),
                                                              *[t.mk("idx", a) for a in axs]), r.dt)
            elif isinstance(v, Lst):
                self.st.heap[v.loc] = TopRec("loop result")
            else:
                self.assign_name(n, Opq(t.top("loop result", (h, n, ks)), "?"))
        # mutated through method calls or stores
        for x in ast.walk(s):
            base = None
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                base = x.value
            elif isinstance(x, ast.AugAssign):
                base = x.target.value if isinstance(x.target, ast.Subscript) else x.target
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                    x.func.attr in ("append", "extend", "update", "insert", "pop", "sort", "fill"):
                base = x.func.value
            if isinstance(base, ast.Name):
                v = self.res(self.lookup_from(self.frames[-1].scope, mod, base.id) or NONE)
                if isinstance(v, Arr):
                    r = self.st.heap[v.loc]
                    if isinstance(r, ArrRec):
                        axs = sum((t.base_axes(a) for a in r.axes), ())
                        self.st.heap[v.loc] = ArrRec(r.axes, t.mk("top", "loop result", (h, base.id, ks),
                                                                  *[t.mk("idx", a) for a in axs]), r.dt)
                        self.muts.append((v.loc, self.st.pcterm(), self.where()))
                elif isinstance(v, (Lst,)):
                    self.st.heap[v.loc] = TopRec("loop result")
                elif isinstance(v, Dct):
                    r = self.st.heap[v.loc]
                    if isinstance(r, DictRec):
                        self.st.heap[v.loc] = DictRec(r.d, "loop")
        self.unknown("loop not summarised")

    def s_Match(self, s, mod):
        self.havoc(s, mod, [])

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        v = self.res(v)
        if isinstance(v, Iter):
            return v
        if isinstance(v, Tup):
            return Iter("items", list(v.items))
        if isinstance(v, SetV):
            return Iter("items", list(v.items))
        if isinstance(v, Lst):
            r = self.rec(v)
            if isinstance(r, ListRec):
                return Iter("items", list(r.items))
            if isinstance(r, GenRec):
                return Iter("gen", axis=r.axis, value=r.value)
            return None
        if isinstance(v, Dct):
            r = self.rec(v)
            if isinstance(r, DictRec) and not r.unknown:
                return Iter("items", [_wrapcond(x, self.unkey(k)) for k, x in r.d.items()])
            return None
        if isinstance(v, Obj):
            p = self.payload(v)
            if p is not None:
                return self.iterate(p)
            return None
        if isinstance(v, AttrDict):
            r = self.st.heap[v.loc]
            return Iter("items", [_wrapcond(x, Const(k)) for k, x in r.attrs.items()])
        if isinstance(v, RangeV):
            if v.a.op == v.b.op == v.s.op == "num":
                rg = range(int(v.a.args[0]), int(v.b.args[0]), int(v.s.args[0]))
                if len(rg) <= MAXITER:
                    return Iter("items", [Sc(t.num(i), None, "int") for i in rg])
            if v.s.op == "num" and v.s.args[0] > 0:
                n = t.sub(v.b, v.a)
                if v.s is not t.ONEN:
                    n = t.fn("ceil", t.div(n, v.s))
                if n.op != "num" and t.sgn(n) is None:
                    n = t.minmax("max", n, t.ZERO)
                ax = t.axis_size(n)
                return Iter("gen", axis=ax, value=Sc(t.add(v.a, t.mul(v.s, self.idx(ax))), None, "int"))
            return None
        if isinstance(v, Arr):
            ax = v.axes[0]
            if ax.kind == "n" and ax.data.op == "num" and ax.data.args[0] <= 64:
                return Iter("items", [self.getitem(v, Sc(t.num(i), None, "int"))
                                      for i in range(int(ax.data.args[0]))])
            if ax is t.ONE:
                return Iter("items", [self.getitem(v, Sc(t.num(0), None, "int"))])
            if ax.kind in ("sym", "n", "sub"):
                b = t.base_axes(ax)
                if len(b) == 1:
                    return Iter("gen", axis=ax if ax.kind != "sub" else ax,
                                value=self.row(v))
            return None
        if isinstance(v, Const) and isinstance(v.v, str):
            return Iter("items", [Const(ch) for ch in v.v])
        return None

    def row(self, v):
        """v[i] for the generic index of its first axis"""
        if len(v.axes) == 1:
            return Sc(self.elem(v), v.unit, {"b": "bool", "i": "npint"}.get(self.dt(v), "np"))
        return Arr(v.loc, v.axes[1:], v.sub, v.unit, v.div)

    def idx(self, ax):
        if ax is t.ONE:
            return t.ZERO
        if ax.kind == "sub":
            return t.mk("rank", ax.data[0], ax.data[1], t.mk("idx", ax.data[0]))
        if ax.kind == "flat":
            return t.top("flat index")
        return t.mk("idx", ax)

    # ------------------------------------------------------------ expressions
    def ev(self, e, mod):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unknown("expression " + type(e).__name__)
        if hasattr(e, "lineno"):
            t.CUR_LOC[0] = (mod.file, e.lineno, self.callstack[-1] if self.callstack else "?")
        return m(e, mod)

    def e_Constant(self, e, mod):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return TRUEV if v else FALSEV
        if isinstance(v, (str, bytes)) or v is Ellipsis:
            return Const(v)
        if isinstance(v, int):
            return Sc(t.num(v), None, "int")
        if isinstance(v, float):
            return Sc(t.num(v), None, "float")
        return self.unknown("constant")

    def e_Name(self, e, mod):
        return self.lookup(e.id, mod)

    def e_NamedExpr(self, e, mod):
        v = self.ev(e.value, mod)
        self.assign(e.target, v, mod)
        return v

    def e_Attribute(self, e, mod):
        o = self.ev(e.value, mod)
        t.CUR_LOC[0] = (mod.file, e.lineno, self.callstack[-1] if self.callstack else "?")
        return self.getattr(o, e.attr)

    def e_Tuple(self, e, mod):
        return Tup(self.ev_items(e.elts, mod))

    def e_List(self, e, mod):
        return self.new_list(self.ev_items(e.elts, mod))

    def e_Set(self, e, mod):
        return SetV(self.ev_items(e.elts, mod))

    def ev_items(self, elts, mod):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value, mod))
                if it is not None and it.kind == "items":
                    out.extend(it.items)
                else:
                    out.append(self.unknown("starred"))
            else:
                out.append(self.ev(x, mod))
        return out

    def e_Dict(self, e, mod):
        d = {}
        unk = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.res(self.ev(v, mod))
                r = self.dictrec(x)
                if r is None:
                    unk = "unpacked dict"
                else:
                    d.update(r.d)
                    unk = unk or r.unknown
            else:
                kk = self.dkey(self.ev(k, mod))
                d[kk] = self.ev(v, mod)
        return Dct(self.alloc(DictRec(d, unk)))

    def dictrec(self, x):
        x = self.res(x)
        if isinstance(x, Dct):
            r = self.rec(x)
            return r if isinstance(r, DictRec) else None
        if isinstance(x, Obj):
            p = self.payload(x)
            if p is not None:
                return self.dictrec(p)
            return None
        if isinstance(x, AttrDict):
            return DictRec(dict(self.st.heap[x.loc].attrs))
        return None

    def dkey(self, k):
        k = self.res(k)
        if isinstance(k, Const):
            return k.v
        if isinstance(k, Sc) and k.e.op == "num" and k.unit is None:
            v = k.e.args[0]
            return int(v) if v.denominator == 1 else float(v)
        if isinstance(k, Tup):
            return ("tup",) + tuple(self.dkey(x) for x in k.items)
        return ("$key", self.key(k))

    def unkey(self, k):
        if isinstance(k, (bool, str)) or k is None:
            return Const(k)
        if isinstance(k, (int, float)):
            return Sc(t.num(k), None, "int" if isinstance(k, int) else "float")
        if isinstance(k, tuple) and k and k[0] == "tup":
            return Tup([self.unkey(x) for x in k[1:]])
        if isinstance(k, tuple) and k and k[0] == "$key":
            return Opq(t.top("dict key", k), "key", k)
        return self.unknown("dict key")

    def e_BinOp(self, e, mod):
        a = self.ev(e.left, mod)
        b = self.ev(e.right, mod)
        t.CUR_LOC[0] = (mod.file, e.lineno, self.callstack[-1] if self.callstack else "?")
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, mod):
        a = self.ev(e.operand, mod)
        op = type(e.op).__name__
        if op == "Not":
            return self.boolv(t.not_(self.truth(a)))
        return self.dist(lambda x: self.unop(op, x), a)

    def boolv(self, c):
        if c is t.TRUE:
            return TRUEV
        if c is t.FALSE:
            return FALSEV
        return Sc(c, None, "bool")

    def unop(self, op, x):
        if isinstance(x, Lst):
            x = self.npm.asarray(self, x)
        if isinstance(x, (Sc, Arr)) or (isinstance(x, Const) and isinstance(x.v, bool)):
            if op == "USub":
                return self.npm.ew(self, lambda a: t.neg(a), [x], unit=getattr(x, "unit", None),
                                   dt=self.dt(x) if self.dt(x) != "b" else "i")
            if op == "UAdd":
                return x
            if op == "Invert":
                if self.dt(x) == "b" or isinstance(x, Const):
                    return self.npm.ew(self, lambda a: t.not_(t.truth(a)), [x], dt="b")
                return self.unknown("bitwise not", x)
        return self.unknown("unary " + op, x)

    def e_BoolOp(self, e, mod):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i], mod)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            k = self.known(c)
            if k is not None:
                if k == isand:
                    return go(i + 1)
                return v
            if isand:
                return self.fork(c, lambda: go(i + 1), lambda: self._falsy(v))
            return self.fork(c, lambda: self._truthy(v), lambda: go(i + 1))
        return go(0)

    def _falsy(self, v):
        if isinstance(v, Sc) and t.is_bool(v.e):
            return FALSEV
        return v

    def _truthy(self, v):
        if isinstance(v, Sc) and t.is_bool(v.e):
            return TRUEV
        return v

    def e_Compare(self, e, mod):
        left = self.ev(e.left, mod)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, mod)
            t.CUR_LOC[0] = (mod.file, e.lineno, self.callstack[-1] if self.callstack else "?")
            v = self.compare(type(op).__name__, left, right)
            if res is None:
                res = v
            else:
                # a < b < c on scalars
                ca, cb = self.truth(res), self.truth(v)
                res = self.boolv(t.and_(ca, cb))
            left = right
        return res

    def e_IfExp(self, e, mod):
        c = self.cond(e.test, mod)
        return self.fork(c, lambda: self.ev(e.body, mod), lambda: self.ev(e.orelse, mod))

    def e_Lambda(self, e, mod):
        return self.make_func(e, mod)

    def e_JoinedStr(self, e, mod):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(Const(v.value))
            else:
                x = self.ev(v.value, mod)
                spec = None
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, mod)
                if isinstance(x, Const) and isinstance(x.v, str) and spec is None and v.conversion == -1:
                    parts.append(x)
                else:
                    parts.append(("fmt", x, spec))
        return self.strcat(parts)

    def strcat(self, parts):
        if all(isinstance(p, Const) and isinstance(p.v, str) for p in parts):
            return Const("".join(p.v for p in parts))
        ks = tuple(self.key(p[1]) if isinstance(p, tuple) else self.key(p) for p in parts)
        return Opq(t.mk("str", ks), "str", parts)

    def e_Subscript(self, e, mod):
        o = self.ev(e.value, mod)
        k = self.ev_index(e.slice, mod)
        t.CUR_LOC[0] = (mod.file, e.lineno, self.callstack[-1] if self.callstack else "?")
        return self.getitem(o, k)

    def ev_index(self, s, mod):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s, mod)
        return self.ev(s, mod)

    def e_Slice(self, s, mod):
        f = lambda x: self.ev(x, mod) if x is not None else NONE
        return SliceV(f(s.lower), f(s.upper), f(s.step))

    def e_Starred(self, e, mod):
        return self.unknown("starred")

    def e_ListComp(self, e, mod):
        it = self.comp(e.generators, lambda: self.ev(e.elt, mod), mod)
        if it is None:
            names = sorted({n.id for n in ast.walk(e) if isinstance(n, ast.Name)})
            ks = []
            for n in names:
                v = self.lookup_from(self.frames[-1].scope, mod, n)
                if v is not None and not isinstance(v, (Func, Cls, Mod, Ext, Prim, Obj)):
                    ks.append((n, self.key(v)))
            return self.unknown("comprehension", ast.unparse(e), tuple(ks))
        if it.kind == "items":
            return self.new_list(it.items)
        return Lst(self.alloc(GenRec(it.axis, it.value)))

    def e_GeneratorExp(self, e, mod):
        v = self.e_ListComp(e, mod)
        return v

    def e_SetComp(self, e, mod):
        v = self.e_ListComp(e, mod)
        it = self.iterate(v) if isinstance(v, Lst) else None
        if it is not None and it.kind == "items":
            return SetV(it.items)
        return self.unknown("set comprehension")

    def e_DictComp(self, e, mod):
        it = self.comp(e.generators, lambda: Tup([self.ev(e.key, mod), self.ev(e.value, mod)]), mod)
        if it is None or it.kind != "items":
            return self.unknown("dict comprehension")
        d = {}
        for x in it.items:
            c = t.TRUE
            if isinstance(x, _Cond):
                c, x = x.c, x.v
            k = self.dkey(x.items[0])
            v = x.items[1]
            d[k] = v if c is t.TRUE else self.merge(c, v, d.get(k, ABSENT), named=True)
        return self.new_dict(d)

    def comp(self, gens, f, mod):
        # comprehension scope
        scope = self.alloc(ScopeRec({}, self.frames[-1].scope))
        cur = self.frames[-1]
        fr = Frame(_ClsFrame(mod), scope, 0)
        self.frames.append(fr)
        try:
            return self._comp(gens, 0, f, mod)
        finally:
            self.frames.pop()

    def _comp(self, gens, i, f, mod):
        g = gens[i]
        itv = self.ev(g.iter, mod)
        it = self.iterate(itv)
        if it is None:
            return None
        last = i == len(gens) - 1
        if it.kind == "gen":
            self.genloops.append(it.axis)
            try:
                self.assign(g.target, it.value, mod)
                if g.ifs:
                    c = t.TRUE
                    for cnd in g.ifs:
                        c = t.and_(c, self.cond(cnd, mod))
                    if not last:
                        return None
                    return Iter("gen", axis=t.axis_sub(it.axis, c), value=f())
                if not last:
                    return None
                return Iter("gen", axis=it.axis, value=f())
            finally:
                self.genloops.pop()
        out = []
        for x in it.items:
            pres = t.TRUE
            if isinstance(x, _Cond):
                pres, x = x.c, x.v
            self.assign(g.target, x, mod)
            c = pres
            dead = False
            for cnd in g.ifs:
                cc = self.cond(cnd, mod)
                k = self.known(cc)
                if k is False:
                    dead = True
                    break
                if k is None:
                    c = t.and_(c, cc)
            if dead or c is t.FALSE:
                continue
            if last:
                if c is t.TRUE:
                    out.append(f())
                else:
                    base = self.st
                    v = [None]

                    def body():
                        v[0] = f()
                    self.fork(c, body, lambda: None)
                    out.append(_Cond(c, v[0]))
            else:
                r = self._comp(gens, i + 1, f, mod)
                if r is None or r.kind != "items":
                    return None
                out.extend(r.items)
        return Iter("items", out)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, mod):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self._method_frame()
            if fr is not None:
                f = fr.func
                a0 = f.node.args.args[0].arg if f.node.args.args else None
                return SuperV(f.cls, self.lookup_from(fr.scope, mod, a0))
        fv = self.ev(e.func, mod)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.ev(a.value, mod))
                if it is not None and it.kind == "items":
                    args.extend(it.items)
                else:
                    args.append(self.unknown("starred argument"))
            else:
                args.append(self.ev(a, mod))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                x = self.res(self.ev(k.value, mod))
                if isinstance(x, Gate):
                    r = None
                    ra, rb = self.dictrec(x.a), self.dictrec(x.b)
                    if ra and rb and set(ra.d) == set(rb.d):
                        r = DictRec({kk: self.merge(x.c, ra.d[kk], rb.d[kk]) for kk in ra.d})
                else:
                    r = self.dictrec(x)
                if r is None:
                    kwargs["**"] = x
                else:
                    for kk, vv in r.d.items():
                        if kk in kwargs and isinstance(kk, str):
                            self.raise_("TypeError", "multiple values for keyword argument %r" % kk,
                                        kind="type")
                        kwargs[kk] = vv
                    if r.unknown:
                        kwargs["**"] = x
            else:
                kwargs[k.arg] = self.ev(k.value, mod)
        t.CUR_LOC[0] = (mod.file, e.lineno, self.callstack[-1] if self.callstack else "?")
        self.sites += 1
        r = self.call(fv, args, kwargs)
        t.CUR_LOC[0] = (mod.file, e.lineno, self.callstack[-1] if self.callstack else "?")
        return r

    def _method_frame(self):
        for fr in reversed(self.frames):
            if fr.func is not None and getattr(fr.func, "cls", None) is not None:
                return fr
        return None

    def call(self, f, args, kwargs):
        f = self.res(f)
        if isinstance(f, Gate):
            return self.fork(f.c, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
        if isinstance(f, Bound):
            return self.call(f.f, [f.self] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Prim):
            return f.f(self, args, kwargs)
        if isinstance(f, Ext):
            m = self.models.get(f.path)
            if m is not None:
                return m(self, args, kwargs)
            m = self.npm.prefix_model(f.path)
            if m is not None:
                return m(self, f.path, args, kwargs)
            return self.unknown("call " + f.path, tuple(args), kwargs)
        if isinstance(f, Static):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Obj):
            m = self.find_attr(f, "__call__")
            if m is not None:
                return self.call(m, args, kwargs)
        if isinstance(f, Opq):
            return self.npm.call_opaque(self, f, args, kwargs)
        if isinstance(f, Const):
            self.raise_("TypeError", "%r is not callable" % (f.v,), kind="type")
        return self.unknown("call of " + type(f).__name__, tuple(args), kwargs)

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        vs = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                vs[pos[i]] = v
            else:
                extra.append(v)
        if extra and a.vararg is None:
            self.raise_("TypeError", "%s() takes %d positional arguments but %d were given"
                        % (f.name, len(pos), len(args)), kind="type")
        kw = {}
        for k, v in kwargs.items():
            if k == "**":
                kw["**"] = v
            elif k in pos or k in kwo:
                if k in vs:
                    self.raise_("TypeError", "%s() got multiple values for argument %r" % (f.name, k),
                                kind="type")
                vs[k] = v
            elif a.kwarg is not None:
                kw[k] = v
            else:
                self.raise_("TypeError", "%s() got an unexpected keyword argument %r" % (f.name, k),
                            kind="type")
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vs:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vs[n] = f.defaults[j]
                elif "**" in kw:
                    vs[n] = self.unknown("argument from unknown mapping")
                else:
                    self.raise_("TypeError", "%s() missing argument %r" % (f.name, n), kind="type")
        for n in kwo:
            if n not in vs:
                if n in f.kwdefaults:
                    vs[n] = f.kwdefaults[n]
                else:
                    self.raise_("TypeError", "%s() missing keyword argument %r" % (f.name, n), kind="type")
        if a.vararg is not None:
            vs[a.vararg.arg] = Tup(extra)
        if a.kwarg is not None:
            unk = kw.pop("**", None)
            vs[a.kwarg.arg] = Dct(self.alloc(DictRec(kw, "unknown mapping" if unk is not None else None)))
        return vs

    def call_func(self, f, args, kwargs):
        stub = self.stubs.get(f.qual)
        if stub is not None:
            return stub(self, f, args, kwargs)
        if len(self.callstack) > 60:
            return self.unknown("recursion " + f.name)
        self.calls.add(f.qual)
        vs = self.bind(f, args, kwargs)
        scope = self.alloc(ScopeRec(vs, f.scope))
        fr = Frame(f, scope, len(self.st.pc))
        self.frames.append(fr)
        self.callstack.append(f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, f.mod)
            base = self.st.clone()
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(f.node)):
                return self.unknown("generator function " + f.name, tuple(args), kwargs)
            if self.run(f.node.body, f.mod):
                fr.returns.append((self.st, NONE))
            if not fr.returns:
                raise Dead()
            st, v = fr.returns[-1]
            for s, w in reversed(fr.returns[:-1]):
                c = t.and_(*s.pc[len(base.pc):])
                # values first: merging may read arrays of either state
                cur = self.join(c, s, st, base)
                self.st = cur
                v = self.merge_ret(c, w, v, s, st)
                st = self.st
            self.st = st
            return v
        finally:
            self.frames.pop()
            self.callstack.pop()

    def merge_ret(self, c, a, b, sa, sb):
        return self.merge(c, a, b)

    def instantiate(self, c, args, kwargs):
        for b in c.mro:
            if isinstance(b, Ext) and b.path in ("builtins.Exception", "Exception", "ValueError", "Warning"):
                return Opq(t.top("exception", c.name), "exc", c.name)
        o = self.new_instance(c)
        init = self.class_attr(c, "__init__")
        if isinstance(init, Func):
            self.call(init, [o] + list(args), kwargs)
        elif self.is_dict_cls(c):
            self.npm.dict_init(self, self.payload(o), args, kwargs)
        return o

    def new_instance(self, c):
        payload = None
        if self.is_dict_cls(c):
            payload = self.alloc(DictRec({}))
        return self.new_obj(c, {}, payload)

    def is_dict_cls(self, c):
        return any(isinstance(b, Ext) and b.path in ("dict", "collections.UserDict", "collections.OrderedDict")
                   or (isinstance(b, Prim) and b.name == "dict") for b in c.mro)

    # ------------------------------------------------------------ attributes
    def class_attr(self, c, name):
        for b in c.mro:
            if isinstance(b, Cls):
                if name in b.ns:
                    return b.ns[name]
        return None

    def find_attr(self, o, name):
        """a bound method or plain class attribute of an instance, or None"""
        r = self.st.heap[o.loc]
        if not isinstance(r, ObjRec) or not isinstance(r.cls, Cls):
            return None
        v = self.class_attr(r.cls, name)
        return self.bind_attr(v, o) if v is not None else None

    def bind_attr(self, v, o):
        if isinstance(v, (Func, Prim)):
            return Bound(v, o)
        if isinstance(v, Static):
            if v.kind == "classmethod":
                r = self.st.heap[o.loc]
                return Bound(v.f, r.cls)
            return v.f
        if isinstance(v, Prop):
            return self.call(v.fget, [o], {})
        return v

    def getattr(self, o, name, default=None):
        o = self.res(o)
        if isinstance(o, Gate):
            return self.dist(lambda x: self.getattr(x, name, default), o)
        if isinstance(o, Obj):
            r = self.st.heap[o.loc]
            if not isinstance(r, ObjRec):
                return self.unknown("attribute of forgotten object")
            if name == "__dict__":
                return AttrDict(o.loc)
            if name == "__class__":
                return r.cls
            if isinstance(r.cls, Cls):
                v = self.class_attr(r.cls, name)
                if isinstance(v, Prop):
                    return self.call(v.fget, [o], {})
            if name in r.attrs:
                v = r.attrs[name]
                return self.drop_absent(v, name, default)
            if isinstance(r.cls, Cls):
                if v is not None:
                    return self.bind_attr(v, o)
                g = self.class_attr(r.cls, "__getattr__")
                if g is not None:
                    return self.call(g, [o, Const(name)], {})
            if isinstance(r.cls, str):
                return self.npm.ext_attr(self, o, r, name)
            if r.payload is not None:
                m = self.npm.dict_method(self, Dct(r.payload), name)
                if m is not None:
                    return m
            if name in ("__init__", "__repr__", "__str__", "__eq__"):
                return Prim("object." + name, lambda i, a, k: NONE)
            if default is not None:
                return default
            self.raise_("AttributeError", name, kind="attr")
        if isinstance(o, Mod):
            ns = self.ns(o)
            if name in ns:
                return ns[name]
            m = self.load_module(o.name + "." + name)
            if m is not None:
                return m
            if default is not None:
                return default
            self.raise_("AttributeError", "%s.%s" % (o.name, name), kind="attr")
        if isinstance(o, Ext):
            return self.npm.ext_path_attr(self, o, name)
        if isinstance(o, Cls):
            if name == "__name__":
                return Const(o.name)
            if name == "__new__":
                return Prim("new", lambda i, a, k: i.new_instance(a[0]))
            v = self.class_attr(o, name)
            if v is not None:
                if isinstance(v, Static):
                    return Bound(v.f, o) if v.kind == "classmethod" else v.f
                return v
            if self.is_dict_cls(o):
                return Prim("dict." + name, lambda i, a, k: i.npm.dict_method(i, i.payload(a[0]), name)
                            .f(i, a[1:], k))
            if default is not None:
                return default
            return self.unknown("class attribute " + name)
        if isinstance(o, SuperV):
            return self.super_attr(o, name)
        if isinstance(o, Func):
            if name in ("__name__",):
                return Const(o.name)
            if name in ("__doc__", "__qualname__", "__module__"):
                return self.unknown("function attribute")
            return self.unknown("function attribute " + name, o)
        r = self.npm.value_attr(self, o, name, default)
        return r

    def drop_absent(self, v, name, default):
        v = self.res(v)
        if v is ABSENT:
            if default is not None:
                return default
            self.raise_("AttributeError", name, kind="attr")
        if isinstance(v, Gate) and (v.a is ABSENT or v.b is ABSENT):
            if v.a is ABSENT:
                if default is not None:
                    return self.merge(v.c, default, v.b, named=True)
                self.raise_if(v.c, "AttributeError", name, kind="attr")
                return self.drop_absent(v.b, name, default)
            if default is not None:
                return self.merge(v.c, v.a, default, named=True)
            self.raise_if(t.not_(v.c), "AttributeError", name, kind="attr")
            return self.drop_absent(v.a, name, default)
        return v

    def super_attr(self, o, name):
        r = self.st.heap[o.self.loc] if isinstance(o.self, Obj) else None
        cls = r.cls if r is not None else o.cls
        mro = cls.mro
        i = mro.index(o.cls) + 1 if o.cls in mro else 1
        for b in mro[i:]:
            if isinstance(b, Cls) and name in b.ns:
                return self.bind_attr(b.ns[name], o.self)
        if self.is_dict_cls(cls) and isinstance(o.self, Obj):
            if name == "__init__":
                return Prim("dict.__init__", lambda i_, a, k: i_.npm.dict_init(i_, i_.payload(o.self), a, k))
            m = self.npm.dict_method(self, self.payload(o.self), name)
            if m is not None:
                return m
        if name == "__init__":
            return Prim("object.__init__", lambda i_, a, k: NONE)
        if name == "__new__":
            return Prim("new", lambda i_, a, k: i_.new_instance(a[0]))
        if name == "__setattr__":
            return Prim("setattr", lambda i_, a, k: i_.rawset(o.self, a[0].v, a[1]))
        return Opq(t.top("super." + name), "super", name)

    def rawset(self, o, name, v):
        r = self.st.heap[o.loc]
        at = dict(r.attrs)
        at[name] = v
        self.st.heap[o.loc] = ObjRec(r.cls, at, r.payload)
        return NONE

    def setattr(self, o, name, v):
        o = self.res(o)
        if isinstance(o, Gate):
            g = o
            self.fork(g.c, lambda: self.setattr(g.a, name, v), lambda: self.setattr(g.b, name, v))
            return
        if isinstance(o, Obj):
            r = self.st.heap[o.loc]
            if not isinstance(r, ObjRec):
                return
            if isinstance(r.cls, Cls):
                p = self.class_attr(r.cls, name)
                if isinstance(p, Prop):
                    if p.fset is None:
                        self.raise_("AttributeError", "can't set %s" % name, kind="attr")
                    self.call(p.fset, [o, v], {})
                    return
                sa = self.class_attr(r.cls, "__setattr__")
                if isinstance(sa, Func) and not getattr(self, "_in_setattr", False):
                    self._in_setattr = True
                    try:
                        self.call(sa, [o, Const(name), v], {})
                    finally:
                        self._in_setattr = False
                    return
            self.rawset(o, name, v)
            return
        if isinstance(o, Cls):
            o.ns[name] = v
            return
        if isinstance(o, Opq):
            self.events.append(Event("setattr", [o, Const(name), v], {}, self.st.pcterm(), self.where(),
                                     tuple(self.ctx)))
            return
        if isinstance(o, Mod):
            r = self.st.heap[o.ns]
            vs = dict(r.vars)
            vs[name] = v
            self.st.heap[o.ns] = ScopeRec(vs, r.parent, r.glob, r.nonloc)
            return
        self.unknown("setattr on " + type(o).__name__)

    # ------------------------------------------------------------ operators
    def truth(self, v):
        v = self.res(v)
        if isinstance(v, Const):
            return t.TRUE if v.v else t.FALSE
        if isinstance(v, Sc):
            return t.truth(v.e)
        if isinstance(v, Gate):
            return t.ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, Arr):
            if all(a is t.ONE for a in v.axes):
                return t.truth(self.elem(v))
            return t.truth(t.top("truth of an array", self.key(v)))
        if isinstance(v, Lst):
            r = self.rec(v)
            if isinstance(r, ListRec):
                return t.TRUE if r.items else t.FALSE
            if isinstance(r, GenRec):
                return t.not_(t.eq(t.size_of(r.axis), t.ZERO))
            return t.truth(t.top("truth of a list", v.loc))
        if isinstance(v, (Tup, SetV)):
            return t.TRUE if v.items else t.FALSE
        if isinstance(v, (Dct, Obj)):
            r = self.dictrec(v)
            if r is not None and not r.unknown:
                return t.TRUE if r.d else t.FALSE
            if isinstance(v, Obj):
                m = self.find_attr(v, "__bool__") or self.find_attr(v, "__len__")
                if m is not None:
                    return self.truth(self.call(m, [], {}))
                return t.TRUE
        if isinstance(v, (Func, Cls, Prim, Ext, Bound, Mod, UnitV)):
            return t.TRUE
        if isinstance(v, Opq):
            if v.tag == "bool":
                return t.truth(v.term)
            return t.truth(v.term) if v.term.top else t.mk("bapp", "truth", (v.term,))
        return t.truth(t.top("truth"))

    def binop(self, op, a, b):
        a, b = self.res(a), self.res(b)
        if isinstance(a, Gate) or isinstance(b, Gate):
            return self.dist(lambda x, y: self.binop(op, x, y), a, b)
        return self.npm.binop(self, op, a, b)

    def compare(self, op, a, b):
        a, b = self.res(a), self.res(b)
        if isinstance(a, Gate) or isinstance(b, Gate):
            return self.dist(lambda x, y: self.compare(op, x, y), a, b)
        return self.npm.compare(self, op, a, b)

    def getitem(self, o, k):
        o, k = self.res(o), self.res(k)
        if isinstance(o, Gate) or isinstance(k, Gate):
            return self.dist(lambda x, y: self.getitem(x, y), o, k)
        return self.npm.getitem(self, o, k)

    def setitem(self, o, k, v):
        o = self.res(o)
        if isinstance(o, Gate):
            g = o
            self.fork(g.c, lambda: self.setitem(g.a, k, v), lambda: self.setitem(g.b, k, v))
            return
        k = self.res(k)
        if isinstance(k, Gate):
            g = k
            self.fork(g.c, lambda: self.setitem(o, g.a, v), lambda: self.setitem(o, g.b, v))
            return
        if isinstance(o, Arr):
            v = self.res(v)
            if isinstance(v, Gate):
                g = v
                self.fork(g.c, lambda: self.setitem(o, k, g.a), lambda: self.setitem(o, k, g.b))
                return
            self.store(o, k, v)
            return
        if isinstance(o, Obj):
            r = self.st.heap[o.loc]
            m = self.find_attr(o, "__setitem__")
            if m is not None:
                self.call(m, [k, v], {})
                return
            p = self.payload(o)
            if p is not None:
                return self.setitem(p, k, v)
            if isinstance(r.cls, str):
                return self.npm.ext_setitem(self, o, r, k, v)
        if isinstance(o, Dct):
            r = self.rec(o)
            if isinstance(r, DictRec):
                d = dict(r.d)
                d[self.dkey(k)] = v
                self.st.heap[o.loc] = DictRec(d, r.unknown)
                self.muts.append((o.loc, self.st.pcterm(), self.where()))
            return
        if isinstance(o, AttrDict):
            if isinstance(k, Const):
                self.rawset(Obj(o.loc), k.v, v)
            else:
                self.unknown("__dict__ store")
            return
        if isinstance(o, Lst):
            r = self.rec(o)
            kk = self.dkey(k)
            if isinstance(r, ListRec) and isinstance(kk, int) and -len(r.items) <= kk < len(r.items):
                it = list(r.items)
                it[kk] = v
                self.st.heap[o.loc] = ListRec(it)
            else:
                self.st.heap[o.loc] = TopRec("list store")
            self.muts.append((o.loc, self.st.pcterm(), self.where()))
            return
        if isinstance(o, Opq):
            self.events.append(Event("setitem", [o, k, v], {}, self.st.pcterm(), self.where(), tuple(self.ctx)))
            return
        self.unknown("item store on " + type(o).__name__)

    def store(self, o, k, v, quiet=False):
        self.npm.store(self, o, k, v)

    # ------------------------------------------------------------ entry helpers
    def get(self, dotted):
        """resolve 'module.attr.attr' in the package; None when absent"""
        parts = dotted.split(".")
        m = self.mods.get(parts[0]) or self.load_module(
            self.package if parts[0] == self.package else self.package + "." + parts[0])
        if m is None:
            return None
        v = m
        for p in parts[1:]:
            if isinstance(v, Mod):
                v = self.ns(v).get(p)
            elif isinstance(v, Cls):
                v = self.class_attr(v, p)
            else:
                return None
            if v is None:
                return None
        return v


class _ClsFrame:
    """stands in for a function when executing a class body or a comprehension"""
    def __init__(self, mod):
        self.mod = mod
        self.cls = None
        self.node = None
        self.name = "<scope>"


class _Cond:
    """an item of a sequence that is present only when c holds"""
    __slots__ = ("c", "v")

    def __init__(self, c, v):
        self.c, self.v = c, v


def _wrapcond(x, k):
    if isinstance(x, Gate):
        if x.a is ABSENT:
            return _Cond(t.not_(x.c), k)
        if x.b is ABSENT:
            return _Cond(x.c, k)
    return k


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
    return out


def _own_nodes(f):
    st = list(f.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield n
        st.extend(ast.iter_child_nodes(n))
