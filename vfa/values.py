"""Abstract values, heap records and program states of the analyser."""
from . import terms as t


_SINGLE = {}


class Const:
    """a known Python constant that is not a number (None, bool, str, Ellipsis, ...)"""
    __slots__ = ("v",)

    def __new__(cls, v):
        # one object per singleton, so that they can be compared with `is`
        if v is None or v is True or v is False:
            o = _SINGLE.get(v)
            if o is None:
                o = _SINGLE[v] = object.__new__(cls)
            return o
        return object.__new__(cls)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Const(%r)" % (self.v,)


NONE = Const(None)
TRUEV = Const(True)
FALSEV = Const(False)
ABSENT = Const("<absent>")


class Sc:
    """a scalar: value term, unit (None for plain numbers), kind: int/float/bool/np"""
    __slots__ = ("e", "unit", "kind")

    def __init__(self, e, unit=None, kind="float"):
        self.e, self.unit, self.kind = e, unit, kind

    def __repr__(self):
        return "Sc(%r%s)" % (self.e, " " + repr(self.unit) if self.unit else "")


class Arr:
    """a (view of a) heap array.  axes: visible axes; sub: fixed indices of base axes; div: value scale"""
    __slots__ = ("loc", "axes", "sub", "unit", "div")

    def __init__(self, loc, axes, sub=(), unit=None, div=None):
        self.loc, self.axes, self.sub, self.unit, self.div = loc, tuple(axes), tuple(sub), unit, div

    def __repr__(self):
        return "Arr(@%d %s%s)" % (self.loc, self.axes, " " + repr(self.unit) if self.unit else "")


class Lst:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Dct:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class SetV:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class Obj:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return "Obj(@%d)" % self.loc


class AttrDict:
    """obj.__dict__"""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class Cls:
    __slots__ = ("name", "bases", "ns", "mod", "node", "mro")

    def __init__(self, name, bases, ns, mod, node):
        self.name, self.bases, self.ns, self.mod, self.node = name, bases, ns, mod, node
        self.mro = [self]
        for b in bases:
            if isinstance(b, Cls):
                for x in b.mro:
                    if x not in self.mro:
                        self.mro.append(x)
            elif b not in self.mro:
                self.mro.append(b)

    def __repr__(self):
        return "Cls(%s)" % self.name


class Func:
    __slots__ = ("node", "scope", "mod", "name", "defaults", "kwdefaults", "cls", "qual")

    def __init__(self, node, scope, mod, name, defaults, kwdefaults, cls=None, qual=None):
        self.node, self.scope, self.mod, self.name = node, scope, mod, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.qual = qual or name

    def __repr__(self):
        return "Func(%s)" % self.qual


class Prop:
    __slots__ = ("fget", "fset")

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class Static:
    __slots__ = ("f", "kind")

    def __init__(self, f, kind):
        self.f, self.kind = f, kind


class Bound:
    __slots__ = ("f", "self")

    def __init__(self, f, self_):
        self.f, self.self = f, self_


class Prim:
    """a modelled external callable: f(interp, args, kwargs)"""
    __slots__ = ("name", "f", "data")

    def __init__(self, name, f, data=None):
        self.name, self.f, self.data = name, f, data

    def __repr__(self):
        return "Prim(%s)" % self.name


class Ext:
    """an object of an external library, known by its dotted path"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "Ext(%s)" % self.path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Mod:
    __slots__ = ("name", "ns", "tree", "file")

    def __init__(self, name, ns, tree, file):
        self.name, self.ns, self.tree, self.file = name, ns, tree, file


class Opq:
    """an opaque object; key identifies it, tag says what it is"""
    __slots__ = ("term", "tag", "info")

    def __init__(self, term, tag="?", info=None):
        self.term, self.tag, self.info = term, tag, info

    def __repr__(self):
        return "Opq(%s %r)" % (self.tag, self.term)


class Gate:
    """either a (when c) or b"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Gate(%r, %r, %r)" % (self.c, self.a, self.b)


class SliceV:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class RangeV:
    __slots__ = ("a", "b", "s")

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class UnitV:
    __slots__ = ("u",)

    def __init__(self, u):
        self.u = u


class Iter:
    """a lazily-consumed sequence: kind 'items' (list of values) or 'gen' (axis, generic value)"""
    __slots__ = ("kind", "items", "axis", "value")

    def __init__(self, kind, items=None, axis=None, value=None):
        self.kind, self.items, self.axis, self.value = kind, items, axis, value


class SuperV:
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


# heap records: never mutated, replaced on change
class ArrRec:
    __slots__ = ("axes", "e", "dt")

    def __init__(self, axes, e, dt="f"):
        self.axes, self.e, self.dt = tuple(axes), e, dt


class ListRec:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class GenRec:
    __slots__ = ("axis", "value")

    def __init__(self, axis, value):
        self.axis, self.value = axis, value


class DictRec:
    __slots__ = ("d", "unknown")

    def __init__(self, d, unknown=None):
        self.d, self.unknown = d, unknown


class ObjRec:
    __slots__ = ("cls", "attrs", "payload")

    def __init__(self, cls, attrs, payload=None):
        self.cls, self.attrs, self.payload = cls, attrs, payload


class ScopeRec:
    __slots__ = ("vars", "parent", "glob", "nonloc")

    def __init__(self, vars, parent, glob=(), nonloc=()):
        self.vars, self.parent, self.glob, self.nonloc = vars, parent, glob, nonloc


class TopRec:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class State:
    __slots__ = ("heap", "lits", "pc")

    def __init__(self, heap=None, lits=None, pc=()):
        self.heap = heap if heap is not None else {}
        self.lits = lits if lits is not None else {}
        self.pc = tuple(pc)

    def clone(self):
        return State(dict(self.heap), dict(self.lits), self.pc)

    def assume(self, c, val=True):
        if not val:
            c = t.not_(c)
        if c is t.TRUE:
            return
        self.pc = self.pc + (c,)
        self._lit(c)

    def _lit(self, c):
        if c.op == "not":
            self.lits[c.args[0]] = False
            a = c.args[0]
            if a.op == "and":
                # not(x and y): if x is known, y is decided
                un = [x for x in a.args if t._known(x, self.lits) is not True]
                if len(un) == 1:
                    self.lits[un[0]] = False
                    if un[0].op == "not":
                        self._lit(un[0].args[0])
        else:
            self.lits[c] = True
            if c.op == "and":
                for x in c.args:
                    self._lit(x)

    def pcterm(self, start=0):
        return t.and_(*self.pc[start:]) if len(self.pc) > start else t.TRUE


class Dead(Exception):
    """the current path does not continue"""


class Event:
    __slots__ = ("name", "args", "kwargs", "pc", "loc", "ctx", "snap")

    def __init__(self, name, args, kwargs, pc, loc, ctx, snap=None):
        self.name, self.args, self.kwargs, self.pc, self.loc, self.ctx = name, args, kwargs, pc, loc, ctx
        self.snap = snap

    def __repr__(self):
        return "Event(%s %r %r @%s)" % (self.name, self.args, self.kwargs, self.loc)


class Raised:
    __slots__ = ("pc", "exc", "msg", "loc", "state", "kind", "pcs", "doubt")

    def __init__(self, pc, exc, msg, loc, state, kind="raise", pcs=(), doubt=None):
        self.doubt = doubt if kind != "raise" else None     # not modelled before: the error may be the model's
        self.pc, self.exc, self.msg, self.loc, self.state, self.kind, self.pcs = \
            pc, exc, msg, loc, state, kind, pcs

    def __repr__(self):
        return "Raised(%s %s if %r @%s)" % (self.exc, self.msg, self.pc, self.loc)
