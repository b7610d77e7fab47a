"""Models of library functions and Python builtins (continuation of npmodel.py)."""
import ast
import os
from fractions import Fraction as F

from . import terms as t
from . import units as un
from .values import *
from . import npmodel as m
from .npmodel import (model, as_unit_view, num, ew, plain, plaindim, unit_of, unify_units, axes_of, bcast, conflict, asarray,
                      astype, dtype_of, copy_arr, to_unit, MODELS, int_term, axis_from, shape_axes, record,
                      as_unit, parse_unit, unit_str, flat, reshape, getitem, store, contains, equal, present,
                      typename, merge_num, arr_get, index, subst_value, dict_update, dict_init, dict_pairs,
                      is_free_number, _NOPY, pyconst, topy, forget)


# ====================================================================== lengths
def py_len(interp, v):
    v = interp.res(v)
    if isinstance(v, Gate):
        return interp.merge(v.c, py_len(interp, v.a), py_len(interp, v.b))
    if isinstance(v, Arr):
        if not v.axes:
            interp.raise_("TypeError", "len() of unsized object", kind="type")
        return Sc(t.size_of(v.axes[0]), None, "int")
    if isinstance(v, (Sc,)) or isinstance(v, Const) and not isinstance(v.v, str):
        interp.raise_("TypeError", "object of type %s has no len()" % type(v).__name__, kind="type")
    if isinstance(v, Const):
        return Sc(t.num(len(v.v)), None, "int")
    if isinstance(v, Obj):
        r = interp.rec(v)
        if isinstance(r, ObjRec) and r.cls == "SkyCoord":
            return py_len(interp, r.attrs["lon"])
        f = interp.find_attr(v, "__len__")
        if f is not None:
            return interp.call(f, [], {})
    it = interp.iterate(v)
    if it is None:
        return interp.unknown("len", v)
    if it.kind == "gen":
        return Sc(t.size_of(it.axis), None, "int")
    n = t.ZERO
    for x in it.items:
        n = t.add(n, t.ite(x.c, t.ONEN, t.ZERO) if type(x).__name__ == "_Cond" else t.ONEN)
    return Sc(n, None, "int")


# ====================================================================== helper terms
def arrterm(interp, v):
    """a closed term for the contents of an array (for keys of uninterpreted functions)"""
    v = interp.res(v)
    if isinstance(v, Gate):
        return t.ite(v.c, arrterm(interp, v.a), arrterm(interp, v.b))
    x = num(interp, v)
    if x is None:
        return t.top("array contents", interp.key(v))
    e = interp.elem(plain(interp, x))
    axs = tuple(b for a in axes_of(interp, x) for b in t.base_axes(a))
    if not axs:
        return e
    subs = tuple(a.data[1] for a in x.axes if a.kind == "sub")
    return t.mk("arr", axs, e, *subs)


def fake_int(v):
    return Sc(t.num(v), None, "int")


def kw_axis(interp, axis, n):
    """axis argument -> list of positions or None for all"""
    axis = interp.res(axis)
    if isinstance(axis, Const) and axis.v is None:
        return None
    if isinstance(axis, Sc) and axis.e.op == "num":
        k = int(axis.e.args[0])
        return [k % n] if n else []
    if isinstance(axis, Tup):
        return [int(x.e.args[0]) % n for x in axis.items]
    return "?"


def reduction(name, op, boolean=False, keepint=False):
    def f(interp, a, axis, keepdims, where):
        x = num(interp, a)
        if x is None:
            return interp.unknown("reduction " + name, a)
        if isinstance(x, Sc):
            if op in ("argmax", "argmin"):
                return Sc(t.ZERO, None, "npint")
            if boolean:
                return interp.boolv(t.truth(x.e)) if False else Sc(t.truth(x.e), None, "bool") \
                    if t.truth(x.e) not in (t.TRUE, t.FALSE) else interp.boolv(t.truth(x.e))
            return Sc(t._bool2num(x.e), x.unit, "np" if interp.dt(x) == "f" else "npint")
        ks = kw_axis(interp, axis, len(x.axes))
        if ks == "?" or where is not NONE:
            return interp.unknown("reduction axis", a, axis)
        kd = interp.known(interp.truth(keepdims)) is True
        pos = list(range(len(x.axes))) if ks is None else ks
        for p in pos:
            if p >= len(x.axes):
                interp.raise_("AxisError", "axis out of bounds", kind="shape")
        e = interp.elem(x)
        if boolean:
            e = t.truth(e)
        dt = interp.dt(x)
        if op in ("argmax", "argmin"):
            if len(pos) != 1:
                if len(x.axes) > 1:
                    return interp.unknown("flattened " + op, a)
            ax = x.axes[pos[0]]
            if op == "argmax" and dt == "b" and ax.kind == "n":
                c = t.truth(e)      # the first place that holds
                r = t.ite(t.reduce_("any", ax, c), t.nth(ax, c, t.ZERO), t.ZERO)
            else:
                r = t.reduce_(op, ax, e)
        elif op == "mean":
            r = e
            n = t.ONEN
            for p in sorted(pos, reverse=True):
                r = t.reduce_("sum", x.axes[p], r)
                n = t.mul(n, t.size_of(x.axes[p]))
            r = t.div(r, n)
        elif op == "prod":
            r = e
            for p in sorted(pos, reverse=True):
                ax = x.axes[p]
                if ax.kind == "n" and ax.data.op == "num" and ax.data.args[0] <= 16:
                    r = t.mul(*[t.subst(r, {ax: t.num(i)}) for i in range(int(ax.data.args[0]))])
                elif ax is not t.ONE:
                    r = t.mk("prod", ax, t.TRUE, r)
        else:
            if op in ("max", "min"):
                for p in pos:
                    n = t.size_of(x.axes[p])
                    if x.axes[p].kind == "sub":
                        interp.raise_if(t.eq(n, t.ZERO), "ValueError", "zero-size array to reduction",
                                        kind="empty")
            r = e
            for p in sorted(pos, reverse=True):
                r = t.reduce_(op, x.axes[p], r)
        if kd:
            axes = tuple(t.ONE if i in pos else y for i, y in enumerate(x.axes))
        else:
            axes = tuple(y for i, y in enumerate(x.axes) if i not in pos)
        rdt = "b" if boolean else ("i" if op in ("argmax", "argmin") or (dt in "bi" and op != "mean") else "f")
        u = None if boolean or op in ("argmax", "argmin") else x.unit
        if not axes:
            if boolean:
                return interp.boolv(r)
            return Sc(r, u, "npint" if rdt == "i" else "np")
        return interp.mkarr(axes, r, u, rdt)
    return f


for _n, _op, _b in (("sum", "sum", False), ("any", "any", True), ("all", "all", True), ("max", "max", False),
                    ("min", "min", False), ("mean", "mean", False), ("argmax", "argmax", False),
                    ("argmin", "argmin", False), ("prod", "prod", False)):
    _paths = "numpy." + _n
    if _n in ("max", "min"):
        _paths += " numpy.a%s numpy.nan%s" % (_n, _n)
    if _n == "sum":
        _paths += " numpy.nansum"
    model(_paths, "a,axis=None,keepdims=False,where=None", kwok=("dtype",))(reduction(_n, _op, _b))

model("numpy.count_nonzero", "a,axis=None,keepdims=False,where=None")(
    lambda interp, a, axis, keepdims, where: reduction("sum", "sum")(
        interp, ew(interp, lambda e: t._bool2num(t.truth(e)), [a], dt="i"), axis, keepdims, where))


# ====================================================================== creation
def _fill(interp, shape, e, unit, dt):
    axes = shape_axes(interp, shape)
    if axes is None:
        return interp.unknown("array shape", shape)
    if not axes:
        return Sc(e, unit, "0d")
    for a in axes:
        if a.kind == "n" and a.data.op == "num" and a.data.args[0] < 0:
            interp.raise_("ValueError", "negative dimensions", kind="shape")
    # a fresh axis index for repeated sizes
    out = []
    for a in axes:
        while a in out and a is not t.ONE:
            a = t.axis_alias(a)
        out.append(a)
    return interp.mkarr(out, e, unit, dt)


def _dt(interp, dtype, d="f"):
    if dtype is NONE or dtype is None:
        return d
    return dtype_of(interp, dtype) or d


@model("numpy.zeros", "shape,dtype=None,order=None")
def _(interp, shape, dtype, order):
    d = _dt(interp, dtype)
    return _fill(interp, shape, t.FALSE if d == "b" else t.ZERO, None, d)


@model("numpy.ones", "shape,dtype=None,order=None")
def _(interp, shape, dtype, order):
    d = _dt(interp, dtype)
    return _fill(interp, shape, t.TRUE if d == "b" else t.ONEN, None, d)


@model("numpy.empty", "shape,dtype=None,order=None")
def _(interp, shape, dtype, order):
    d = _dt(interp, dtype)
    axes = shape_axes(interp, shape)
    if axes is None:
        return interp.unknown("array shape", shape)
    interp.fresh += 1
    s = t.sym("$uninit%d" % interp.fresh, tuple(b for a in axes for b in t.base_axes(a)))
    return _fill(interp, shape, t.truth(s) if d == "b" else s, None, d)


@model("numpy.full", "shape,fill_value,dtype=None")
def _(interp, shape, v, dtype):
    x = num(interp, v)
    if x is None:
        return interp.unknown("full", v)
    d = _dt(interp, dtype, interp.dt(x))
    axes = shape_axes(interp, shape)
    if axes is None:
        return interp.unknown("array shape", shape)
    return astype(interp, broadcast(interp, copy_if(interp, x), axes), d)


def copy_if(interp, x):
    return x


def broadcast(interp, x, axes):
    cur = axes_of(interp, x)
    if len(cur) > len(axes):
        interp.raise_("ValueError", "cannot broadcast to fewer dimensions", kind="shape")
    for i in range(1, len(cur) + 1):
        a, b = cur[-i], axes[-i]
        if a is t.ONE or a is b:
            continue
        if b is t.ONE:
            interp.raise_("ValueError", "cannot broadcast to one entry", kind="shape")
        conflict(interp, b, a, "broadcast_to")
    if not axes:
        return Sc(interp.elem(x), x.unit, "0d")
    return interp.mkarr(axes, interp.elem(x), x.unit, interp.dt(x))


@model("numpy.broadcast_to", "array,shape", kwok=("subok",))
def _(interp, a, shape):
    axes = shape_axes(interp, shape)
    x = num(interp, a)
    if axes is None or x is None:
        return interp.unknown("broadcast_to", a, shape)
    return broadcast(interp, x, axes)


@model("numpy.full_like", "a,fill_value,dtype=None")
def _(interp, a, v, dtype):
    x, y = num(interp, a), num(interp, v)
    if x is None or y is None:
        return interp.unknown("full_like", a, v)
    d = _dt(interp, dtype, interp.dt(x))
    y = astype(interp, y, d)
    if isinstance(x, Sc):
        return y
    if x.unit is not None and y.unit is None:
        y = ew(interp, lambda e: t.mul(e, x.unit.scale), [y], unit=x.unit)
    return broadcast(interp, y, x.axes)


def _like(val, bval):
    def f(interp, a, dtype):
        x = num(interp, a)
        if x is None:
            return interp.unknown("zeros_like", a)
        d = _dt(interp, dtype, interp.dt(x))
        e = bval if d == "b" else val
        if isinstance(x, Sc):
            if x.unit is not None:
                return Sc(t.mul(e, x.unit.scale), x.unit, "np")
            return Sc(e, None, "0d")
        if x.unit is not None:
            e = t.mul(e, x.unit.scale)
        return interp.mkarr(x.axes, e, x.unit, d)
    return f


model("numpy.zeros_like", "a,dtype=None")(_like(t.ZERO, t.FALSE))
model("numpy.ones_like", "a,dtype=None")(_like(t.ONEN, t.TRUE))


@model("numpy.empty_like", "a,dtype=None")
def _(interp, a, dtype):
    interp.fresh += 1
    x = num(interp, a)
    axs = tuple(b for ax in axes_of(interp, x) for b in t.base_axes(ax)) if x is not None else ()
    return _like(t.sym("$uninit%d" % interp.fresh, axs), t.FALSE)(interp, a, dtype)


@model("numpy.array", "object,dtype=None,copy=None,ndmin=None", kwok=("subok",))
def _(interp, o, dtype, copy, ndmin):
    r = asarray(interp, o, dtype_of(interp, dtype) if dtype is not NONE else None)
    if isinstance(r, Arr) and interp.res(copy) is not FALSEV:
        r = copy_arr(interp, r)
    if dtype is not NONE and isinstance(r, Sc):
        r = astype(interp, r, dtype_of(interp, dtype))
    if ndmin is not NONE and isinstance(r, Sc):
        r = interp.mkarr((t.ONE,), r.e, r.unit, interp.dt(r))
    return r


@model("numpy.asarray numpy.asanyarray numpy.ascontiguousarray", "a,dtype=None", kwok=("copy",))
def _(interp, o, dtype):
    r = asarray(interp, o, dtype_of(interp, dtype) if dtype is not NONE else None)
    return r


@model("copy.deepcopy", "a")
def _dc(interp, a):
    return _deepcopy(interp, a)


def _deepcopy(interp, a):
    if not isinstance(a, (Arr, Lst, Dct, Tup, Obj)):
        return a
    if isinstance(a, Arr):
        return copy_arr(interp, a)
    if isinstance(a, Tup):
        return Tup(_deepcopy(interp, interp.res(x)) for x in a.items)
    if isinstance(a, Obj):
        r = interp.rec(a)
        if isinstance(r, ObjRec) and (interp.find_attr(a, "__deepcopy__") is not None or r.payload is not None):
            return interp.unknown("deepcopy", a)
        return interp.unknown("deepcopy", a) if not isinstance(r, ObjRec) else Obj(interp.alloc(ObjRec(
            r.cls, {k: _deepcopy(interp, interp.res(v)) for k, v in r.attrs.items()}, None)))
    r = interp.rec(a)
    if isinstance(r, ListRec):
        return interp.new_list([_deepcopy(interp, interp.res(x)) for x in r.items])
    if isinstance(r, DictRec):
        return Dct(interp.alloc(DictRec({k: _deepcopy(interp, interp.res(v)) for k, v in r.d.items()}, r.unknown)))
    return type(a)(interp.alloc(r))


@model("numpy.copy copy.copy", "a")
def _(interp, a):
    if isinstance(a, Arr):
        return copy_arr(interp, a)
    if isinstance(a, (Lst, Dct)):
        return type(a)(interp.alloc(interp.rec(a)))
    if isinstance(a, Obj):
        r = interp.rec(a)
        if isinstance(r, ObjRec):
            f = interp.find_attr(a, "__copy__")
            if f is not None:
                return interp.call(f, [], {})
            pl = interp.alloc(interp.st.heap[r.payload]) if r.payload is not None else None
            return Obj(interp.alloc(ObjRec(r.cls, dict(r.attrs), pl)))
    return a


def _atleast1(interp, v):
    v = interp.res(v)
    if isinstance(v, Gate):
        return interp.merge(v.c, _atleast1(interp, v.a), _atleast1(interp, v.b))
    x = num(interp, v)
    if x is None:
        if v is NONE:
            return interp.new_list([NONE])
        return interp.unknown("atleast_1d", v)
    if isinstance(x, Sc):
        return interp.mkarr((t.ONE,), x.e, x.unit, interp.dt(x))
    return x


def _np_atleast_1d(interp, args, kwargs):
    rs = [_atleast1(interp, a) for a in args]
    return rs[0] if len(rs) == 1 else Tup(rs)


MODELS["numpy.atleast_1d"] = _np_atleast_1d


@model("numpy.atleast_2d", "a")
def _(interp, a):
    x = num(interp, a)
    if x is None:
        return interp.unknown("atleast_2d", a)
    if isinstance(x, Sc):
        return interp.mkarr((t.ONE, t.ONE), x.e, x.unit, interp.dt(x))
    if len(x.axes) == 1:
        return Arr(x.loc, (t.ONE,) + x.axes, x.sub, x.unit, x.div)
    return x


@model("numpy.arange", "start,stop=None,step=1,dtype=None")
def _(interp, a, b, s, dtype):
    if b is NONE:
        a, b = Sc(t.ZERO, None, "int"), a
    a, b, s = num(interp, a), num(interp, b), num(interp, s)
    if any(not isinstance(x, Sc) for x in (a, b, s)):
        return interp.unknown("arange", a, b, s)
    n = t.sub(b.e, a.e)
    if s.e is not t.ONEN:
        n = t.div(n, s.e)
    if not t.isint(n):
        n = t.fn("ceil", n)
    if n.op == "num" and n.args[0] <= 0:
        n = t.ZERO
    elif n.op != "num" and t.sgn(n) is None:
        n = t.minmax("max", n, t.ZERO)
    d = "i" if all(interp.dt(x) == "i" for x in (a, b, s)) else "f"
    if dtype is not NONE:
        d = dtype_of(interp, dtype) or d
    if n is t.ONEN:
        return interp.mkarr((t.ONE,), a.e, a.unit, d)
    ax = t.axis_size(n)
    if ax.kind == "sub":
        return interp.mkarr((ax,), t.add(a.e, t.mul(interp.idx(ax), s.e)), a.unit, d)
    return interp.mkarr((ax,), t.add(a.e, t.mul(t.mk("idx", ax), s.e)), a.unit, d)


def _lin(interp, a, b, n, endpoint, f=None, unitless=False):
    a, b = num(interp, a), num(interp, b)
    n = num(interp, n)
    if a is None or b is None or not isinstance(n, Sc):
        return interp.unknown("linspace")
    u = unify_units(interp, a, b, "linspace")
    if unitless:
        for v in (a, b):
            if v.unit is not None and not v.unit.dimensionless:
                interp.raise_("UnitTypeError", "logspace of a quantity", kind="unit")
    ep = interp.known(interp.truth(endpoint)) is not False
    axes = bcast(interp, [axes_of(interp, a), axes_of(interp, b)])
    ea, eb = interp.elem(a), interp.elem(b)
    if n.e is t.ONEN:
        e = ea
        ax = t.ONE
    else:
        ax = t.axis_size(n.e)
        i = interp.idx(ax)
        e = t.add(ea, t.div(t.mul(t.sub(eb, ea), i), t.sub(n.e, t.ONEN) if ep else n.e))
    if f:
        e = f(e)
    return interp.mkarr((ax,) + axes, e, u)


@model("numpy.linspace", "start,stop,num=50,endpoint=True,dtype=None,axis=0")
def _(interp, a, b, n, endpoint, dtype, axis):
    r = _lin(interp, a, b, n, endpoint)
    if dtype is not NONE:
        r = astype(interp, r, dtype_of(interp, dtype))
    if isinstance(axis, Sc) and axis.e is not t.ZERO and isinstance(r, Arr):
        r = Arr(r.loc, r.axes[1:] + r.axes[:1], r.sub, r.unit, r.div)
    return r


@model("numpy.logspace", "start,stop,num=50,endpoint=True,base=10.0")
def _(interp, a, b, n, endpoint, base):
    bb = num(interp, base)
    return _lin(interp, a, b, n, endpoint, lambda e: t.power(bb.e, e), True)


@model("numpy.geomspace", "start,stop,num=50,endpoint=True")
def _(interp, a, b, n, endpoint):
    la = ew(interp, lambda e: t.fn("log10", e), [plain(interp, num(interp, a))])
    lb = ew(interp, lambda e: t.fn("log10", e), [plain(interp, num(interp, b))])
    u = unit_of(num(interp, a))
    r = _lin(interp, la, lb, n, endpoint, lambda e: t.power(t.num(10), e))
    return r if u is None else ew(interp, lambda e: t.mul(e, u.scale), [r], unit=u)


@model("numpy.eye numpy.identity", "n")
def _(interp, n):
    return interp.unknown("eye", n)


# ====================================================================== shape functions
@model("numpy.repeat", "a,repeats,axis=None")
def _(interp, a, n, axis):
    x, k = num(interp, a), num(interp, n)
    if x is None or not isinstance(k, Sc):
        return interp.unknown("repeat", a, n)
    if isinstance(x, Sc):
        return _fill(interp, k, x.e, x.unit, interp.dt(x))
    if k.e is t.ONEN and (len(x.axes) == 1 or axis is not NONE):
        return copy_arr(interp, x)
    ks = kw_axis(interp, axis, len(x.axes))
    if ks is None:
        if all(y is t.ONE for y in x.axes):
            return _fill(interp, k, interp.elem(x), x.unit, interp.dt(x))
        nax = t.axis_size(k.e)
        fl = flat(interp, x) if len(x.axes) > 1 else x
        return interp.mkarr((t.axis_flat(fl.axes + (nax,)),), interp.elem(x), x.unit, interp.dt(x))
    p = ks[0]
    nax = t.axis_size(k.e)
    if x.axes[p] is t.ONE:
        while nax in x.axes:
            nax = t.axis_alias(nax)
        return interp.mkarr(x.axes[:p] + (nax,) + x.axes[p + 1:], interp.elem(x), x.unit, interp.dt(x))
    return interp.mkarr(x.axes[:p] + (t.axis_flat((x.axes[p], nax)),) + x.axes[p + 1:], interp.elem(x), x.unit,
                        interp.dt(x))


@model("numpy.tile", "a,reps")
def _(interp, a, n):
    x = num(interp, a)
    n = interp.res(n)
    if x is None:
        return interp.unknown("tile", a, n)
    items = [n] if isinstance(n, Sc) else (interp.iterate(n).items if isinstance(n, (Tup, Lst)) else None)
    if items is None or any(int_term(i) is None for i in items):
        return interp.unknown("tile", a, n)
    axes = list(axes_of(interp, x))
    items = list(items)
    while len(axes) < len(items):
        axes.insert(0, t.ONE)
    while len(items) < len(axes):
        items.insert(0, fake_int(1))
    out = []
    for ax, r in zip(axes, items):
        e = int_term(r)
        if e is t.ONEN:
            out.append(ax)
        else:
            nax = t.axis_size(e)
            while nax in axes or nax in out:
                nax = t.axis_alias(nax)
            out.append(nax if ax is t.ONE else t.axis_flat((nax, ax)))
    return interp.mkarr(out, interp.elem(x), x.unit, interp.dt(x))


@model("numpy.squeeze", "a,axis=None")
def _(interp, a, axis):
    x = num(interp, a)
    if not isinstance(x, Arr):
        return a
    ks = kw_axis(interp, axis, len(x.axes))
    if ks == "?":
        return interp.unknown("squeeze", a)
    axes = []
    for i, y in enumerate(x.axes):
        if ks is None and y is t.ONE:
            continue
        if ks is not None and i in ks:
            if y is not t.ONE:
                interp.raise_if(t.not_(t.eq(t.size_of(y), t.ONEN)), "ValueError", "cannot squeeze", kind="shape")
            continue
        axes.append(y)
    if ks is None and interp.scenario.get("squeeze_split", True):
        pass
    v = Arr(x.loc, axes, x.sub, x.unit, x.div)
    return v if axes else Sc(interp.elem(v), x.unit, "0d")


@model("numpy.expand_dims", "a,axis")
def _(interp, a, axis):
    x = num(interp, a)
    if x is None or not (isinstance(axis, Sc) and axis.e.op == "num"):
        return interp.unknown("expand_dims", a)
    if isinstance(x, Sc):
        return interp.mkarr((t.ONE,), x.e, x.unit, interp.dt(x))
    k = int(axis.e.args[0]) % (len(x.axes) + 1)
    return Arr(x.loc, x.axes[:k] + (t.ONE,) + x.axes[k:], x.sub, x.unit, x.div)


@model("numpy.transpose", "a")
def _(interp, a):
    x = num(interp, a)
    return m.num_attr(interp, x, "T") if x is not None else interp.unknown("transpose", a)


@model("numpy.swapaxes numpy.moveaxis", "a,i,j")
def _(interp, a, i, j):
    x = num(interp, a)
    if isinstance(x, Arr) and len(x.axes) == 2 and i.e.op == j.e.op == "num":
        if (int(i.e.args[0]) - int(j.e.args[0])) % 2:
            return Arr(x.loc, tuple(reversed(x.axes)), x.sub, x.unit, x.div)
        return x
    return interp.unknown("swapaxes", a)


@model("numpy.ravel", "a")
def _(interp, a):
    x = num(interp, a)
    return x if isinstance(x, Arr) and len(x.axes) == 1 else flat(interp, x)


@model("numpy.reshape", "a,shape")
def _(interp, a, shape):
    return reshape(interp, num(interp, a), shape)


@model("numpy.ndim", "a")
def _(interp, a):
    if isinstance(a, Obj) or a is NONE:
        return fake_int(0)
    x = num(interp, a)
    return fake_int(len(axes_of(interp, x))) if x is not None else interp.unknown("ndim", a)


@model("numpy.shape", "a")
def _(interp, a):
    x = num(interp, a)
    return m.num_attr(interp, x, "shape") if x is not None else interp.unknown("shape", a)


@model("numpy.size", "a")
def _(interp, a):
    x = num(interp, a)
    return m.num_attr(interp, x, "size") if x is not None else interp.unknown("size", a)


@model("numpy.isscalar", "a")
def _(interp, a):
    if isinstance(a, Sc):
        return Const(a.unit is None and a.kind != "0d")
    return Const(isinstance(a, Const) and a.v is not None)


@model("numpy.concatenate numpy.hstack numpy.append", "arrays,b=None,axis=0")
def _(interp, arrays, b, axis):
    items = None
    if b is not NONE and not (isinstance(b, Sc) and isinstance(arrays, (Tup, Lst))):
        items = [arrays, b]
    else:
        it = interp.iterate(arrays)
        if it is not None and it.kind == "items":
            items = it.items
    if items is None:
        return interp.unknown("concatenate", arrays, b)
    xs = [num(interp, x) for x in items]
    if any(x is None for x in xs):
        return interp.unknown("concatenate", arrays, b)
    if isinstance(axis, Sc) and axis.e is not t.ZERO and len(axes_of(interp, xs[0])) > 1:
        return interp.unknown("concatenate axis", arrays)
    xs = [interp.mkarr((t.ONE,), x.e, x.unit, interp.dt(x)) if isinstance(x, Sc) else x for x in xs]
    if any(len(x.axes) != 1 for x in xs):
        return interp.unknown("concatenate rank", arrays)
    u = xs[0].unit
    for x in xs[1:]:
        if (x.unit is None) != (u is None):
            return interp.unknown("concatenate units", arrays)
    total = t.ZERO
    starts = []
    for x in xs:
        starts.append(total)
        total = t.add(total, t.size_of(x.axes[0]))
    ax = t.axis_size(total)
    if ax is t.ONE:
        return copy_arr(interp, xs[0])
    i = t.mk("idx", ax)
    r = None
    for x, s in reversed(list(zip(xs, starts))):
        e = interp.elem(x)
        bx = t.base_axes(x.axes[0])
        j = t.sub(i, s)
        if x.axes[0] is t.ONE:
            v = e
        elif len(bx) == 1 and x.axes[0].kind == "sub":
            v = t.subst(e, {bx[0]: t.nth( x.axes[0].data[0], x.axes[0].data[1], j)})
        elif len(bx) == 1:
            v = t.subst(e, {bx[0]: j})
        else:
            return interp.unknown("concatenate flat", arrays)
        r = v if r is None else t.ite(t.lt(j, t.size_of(x.axes[0])), v, r)
    dts = {interp.dt(x) for x in xs}
    return interp.mkarr((ax,), r, u, dts.pop() if len(dts) == 1 else "f")


@model("numpy.stack numpy.vstack", "arrays,axis=0")
def _(interp, arrays, axis):
    r = asarray(interp, arrays, keepunit=True)
    if isinstance(r, Arr) and isinstance(axis, Sc) and axis.e.op == "num":
        k = int(axis.e.args[0])
        if k:
            ax = list(r.axes[1:])
            ax.insert(k if k > 0 else len(ax) + 1 + k, r.axes[0])
            return Arr(r.loc, ax, r.sub, r.unit, r.div)
    return r


@model("numpy.column_stack", "arrays")
def _(interp, arrays):
    r = asarray(interp, arrays, keepunit=True)
    return Arr(r.loc, tuple(reversed(r.axes)), r.sub, r.unit, r.div) if isinstance(r, Arr) else r


@model("numpy.where", "cond,x=None,y=None")
def _(interp, c, x, y):
    if x is NONE and y is NONE:
        a = num(interp, c)
        if not isinstance(a, Arr):
            return interp.unknown("where", c)
        cond = t.truth(interp.elem(a))
        if len(a.axes) != 1:
            return interp.unknown("where of several dimensions", c)
        ax = a.axes[0]
        if ax is t.ONE:
            sub = m.mask_one(cond)
            return Tup([interp.mkarr((sub,), t.ZERO, None, "i")])
        sub = t.axis_sub(ax, cond)
        return Tup([interp.mkarr((sub,), interp.idx(ax), None, "i")])
    a, b, cc = num(interp, x), num(interp, y), num(interp, c)
    if a is None or b is None or cc is None:
        return interp.unknown("where", c, x, y)
    u = unify_units(interp, a, b, "where")
    da, db = interp.dt(a), interp.dt(b)
    if da == db == "b":
        return ew(interp, lambda p, q, r: t.ite(t.truth(p), t.truth(q), t.truth(r)), [cc, a, b], dt="b")
    d = "i" if da in "bi" and db in "bi" else "f"
    return ew(interp, lambda p, q, r: t.ite(t.truth(p), t._bool2num(q), t._bool2num(r)), [cc, a, b], unit=u, dt=d)


@model("numpy.nonzero numpy.flatnonzero", "a")
def _(interp, a):
    return MODELS["numpy.where"](interp, [a], {})


@model("numpy.select", "conds,choices,default=0")
def _(interp, cs, vs, d):
    ic, iv = interp.iterate(cs), interp.iterate(vs)
    if ic is None or iv is None or ic.kind != "items" or iv.kind != "items":
        return interp.unknown("select")
    r = d
    for c, v in reversed(list(zip(ic.items, iv.items))):
        r = MODELS["numpy.where"](interp, [c, v, r], {})
    return r


@model("numpy.piecewise", "x,conds,funcs")
def _(interp, x, cs, fs):
    return interp.unknown("piecewise", x)


# ====================================================================== elementwise functions
def _elem1(name, f, unit="drop", dt="f"):
    def g(interp, a, where, out):
        x = num(interp, a)
        if x is None:
            if a is NONE or isinstance(a, Const):
                interp.raise_("TypeError", name + " of a non-number", kind="type")
            return interp.unknown(name, a)
        u = None
        if unit == "keep":
            u = x.unit
        elif unit == "angle":
            if x.unit is not None and not (x.unit.dimensionless):
                interp.raise_("UnitTypeError", "%s of %r" % (name, x.unit), kind="unit")
            u = un.ONE if x.unit is not None else None
        elif unit == "drop":
            if x.unit is not None and not x.unit.dimensionless:
                interp.raise_("UnitTypeError", "%s of %r" % (name, x.unit), kind="unit")
            u = un.ONE if x.unit is not None else None
        elif unit == "rad":
            if x.unit is not None:
                u = un.TABLE["rad"]
        elif callable(unit):
            u = unit(x.unit)
        d = dt if dt != "same" else (interp.dt(x) if interp.dt(x) != "b" else "i")
        r = ew(interp, lambda e: f(t._bool2num(e)), [x], unit=u, dt=d)
        if isinstance(r, Sc) and r.kind in ("float", "int"):
            r = Sc(r.e, r.unit, "np" if d == "f" else "npint")
        if out is not NONE:
            store(interp, out, SliceV(NONE, NONE, NONE), r)
            return out
        if where is not NONE:
            return interp.unknown("ufunc where")
        return r
    return g


def _ufunc1(names, f, unit="drop", dt="f"):
    model(" ".join("numpy." + n for n in names.split()), "x,where=None,out=None")(_elem1(names, f, unit, dt))


for _n in ("exp", "log", "log10", "log2", "tanh", "sinh", "cosh", "expm1", "log1p", "arctanh"):
    _ufunc1(_n, (lambda n: lambda e: t.fn(n, e))(_n))
for _n in ("sin", "cos", "tan"):
    _ufunc1(_n, (lambda n: lambda e: t.fn(n, e))(_n), "angle")
for _n, _al in (("arcsin", "asin"), ("arccos", "acos"), ("arctan", "atan")):
    _ufunc1(_n + " " + _al, (lambda n: lambda e: t.fn(n, e))(_n), "rad")
_ufunc1("sqrt", lambda e: t.power(e, F(1, 2)), lambda u: None if u is None else u ** F(1, 2))
_ufunc1("cbrt", lambda e: t.power(e, F(1, 3)), lambda u: None if u is None else u ** F(1, 3))
_ufunc1("square", lambda e: t.power(e, 2), lambda u: None if u is None else u ** 2, "same")
_ufunc1("abs absolute fabs", lambda e: t.fn("abs", e), "keep", "same")
_ufunc1("negative", t.neg, "keep", "same")
_ufunc1("reciprocal", lambda e: t.power(e, -1), lambda u: None if u is None else u ** -1)
_ufunc1("sign", lambda e: t.ite(t.lt(t.ZERO, e), t.ONEN, t.ite(t.lt(e, t.ZERO), t.num(-1), t.ZERO)), lambda u: None)
_ufunc1("ceil floor trunc".split()[0], lambda e: t.fn("ceil", e), "drop", "f")
_ufunc1("floor", lambda e: t.fn("floor", e), "drop", "f")
_ufunc1("trunc fix", lambda e: t.fn("trunc", e), "drop", "f")
_ufunc1("rint", lambda e: t.fn("round", e), "drop", "f")
_ufunc1("radians deg2rad", lambda e: t.mul(e, t.PI, t.num(F(1, 180))))
_ufunc1("degrees rad2deg", lambda e: t.mul(e, t.div(t.num(180), t.PI)))
_ufunc1("isnan", lambda e: t.mk("bapp", "isnan", (e,)) if t.sgn(e) is None or True else t.FALSE, lambda u: None, "b")
_ufunc1("isinf", lambda e: t.mk("bapp", "isinf", (e,)), lambda u: None, "b")
_ufunc1("isfinite", lambda e: t.mk("bapp", "isfinite", (e,)), lambda u: None, "b")

for _n in ("exp", "log", "log10", "sin", "cos", "tan", "sqrt", "tanh", "floor", "ceil", "fabs", "isnan", "isinf"):
    MODELS["math." + _n] = (lambda n: lambda i, a, k: MODELS["numpy." + ("abs" if n == "fabs" else n)](i, a, k))(_n)


@model("numpy.round numpy.around numpy.round_", "a,decimals=0")
def _(interp, a, d):
    x = num(interp, a)
    if x is None or not isinstance(d, Sc) or d.e.op != "num":
        return interp.unknown("round", a)
    s = t.num(F(10) ** int(d.e.args[0]))
    sc = x.unit.scale if x.unit is not None else t.ONEN
    r = ew(interp, lambda e: t.mul(t.div(t.fn("round", t.mul(t.div(e, sc), s)), s), sc), [x], unit=x.unit,
           dt=interp.dt(x))
    if isinstance(r, Sc) and r.unit is None and r.kind in ("float", "int"):
        r = Sc(r.e, None, "np" if r.kind == "float" else "npint")
    return r


def _ufunc2(names, op):
    def g(interp, a, b, out, where):
        if where is not NONE:
            return interp.unknown("ufunc where")
        r = interp.binop(op, a, b)
        if isinstance(r, Sc) and r.kind in ("float", "int"):
            r = Sc(r.e, r.unit, "np" if r.kind == "float" else "npint")
        if out is not NONE:
            store(interp, out, SliceV(NONE, NONE, NONE), r)
            return out
        return r
    model(" ".join("numpy." + n for n in names.split()), "a,b,out=None,where=None")(g)


for _ns, _op in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide true_divide", "Div"),
                 ("power float_power", "Pow"), ("floor_divide", "FloorDiv"), ("mod remainder fmod", "Mod"),
                 ("bitwise_and", "BitAnd"), ("bitwise_or", "BitOr"), ("bitwise_xor", "BitXor")):
    _ufunc2(_ns, _op)
MODELS["math.pow"] = MODELS["numpy.power"]
for _n, _op in (("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE"),
                ("equal", "Eq"), ("not_equal", "NotEq")):
    model("numpy." + _n, "a,b")((lambda op: lambda i, a, b: i.compare(op, a, b))(_op))


def _logic(interp, kind, ops):
    xs = [num(interp, o) for o in ops]
    if any(x is None for x in xs):
        return interp.unknown("logical_" + kind, *ops)
    f = t.and_ if kind == "and" else (t.or_ if kind == "or" else None)
    if kind == "xor":
        return ew(interp, lambda p, q: t.not_(t.eq(t.truth(p), t.truth(q))), xs, dt="b")
    return ew(interp, lambda *p: f(*[t.truth(x) for x in p]), xs, dt="b")


for _k in ("and", "or", "xor"):
    model("numpy.logical_" + _k, "a,b,out=None")(
        (lambda k: lambda i, a, b, out: _logic(i, k, [a, b]) if out is NONE else
         (store(i, out, SliceV(NONE, NONE, NONE), _logic(i, k, [a, b])), out)[1])(_k))


def _logic_reduce(kind):
    def f(interp, a, axis):
        it = interp.iterate(a) if isinstance(a, (Tup, Lst)) else None
        if it is not None and it.kind == "items" and not (isinstance(axis, Sc) and axis.e is not t.ZERO):
            r = it.items[0]
            for x in it.items[1:]:
                r = interp.dist(lambda p, q: _logic(interp, kind, [p, q]), r, x)
            if len(it.items) == 1:
                r = ew(interp, t.truth, [r], dt="b")
            return r
        return MODELS["numpy.all" if kind == "and" else "numpy.any"](interp, [a, axis], {})
    return f


for _k in ("and", "or"):
    model("numpy.logical_%s.reduce" % _k, "a,axis=0")(_logic_reduce(_k))


@model("numpy.add.reduce", "a,axis=0")
def _(interp, a, axis):
    return MODELS["numpy.sum"](interp, [a, axis], {})


@model("numpy.maximum.reduce", "a,axis=0")
def _(interp, a, axis):
    return MODELS["numpy.max"](interp, [a, axis], {})


@model("functools.reduce", "f,it,init=None", gates=False)
def _(interp, f, itv, init):
    it = interp.iterate(itv)
    if it is None or it.kind != "items":
        return interp.unknown("reduce", itv)
    items = list(it.items)
    r = init if init is not NONE else items.pop(0)
    for x in items:
        r = interp.call(f, [r, x], {})
    return r


@model("numpy.logical_not numpy.invert numpy.bitwise_not", "a,out=None")
def _(interp, a, out):
    x = num(interp, a)
    if x is None:
        return interp.unknown("logical_not", a)
    r = ew(interp, lambda e: t.not_(t.truth(e)), [x], dt="b")
    if out is not NONE:
        store(interp, out, SliceV(NONE, NONE, NONE), r)
        return out
    return r


def _mm(kind):
    def f(interp, a, b, out):
        x, y = num(interp, a), num(interp, b)
        if x is None or y is None:
            return interp.unknown(kind, a, b)
        u = unify_units(interp, x, y, kind)
        d = "i" if interp.dt(x) in "bi" and interp.dt(y) in "bi" else "f"
        r = ew(interp, lambda p, q: t.minmax(kind, p, q), [x, y], unit=u, dt=d)
        if out is not NONE:
            store(interp, out, SliceV(NONE, NONE, NONE), r)
            return out
        return r
    return f


model("numpy.maximum numpy.fmax", "a,b,out=None")(_mm("max"))
model("numpy.minimum numpy.fmin", "a,b,out=None")(_mm("min"))


@model("numpy.clip", "a,a_min=None,a_max=None,out=None")
def _(interp, a, lo, hi, out):
    r = a
    if lo is not NONE:
        r = _mm("max")(interp, r, lo, NONE)
    if hi is not NONE:
        r = _mm("min")(interp, r, hi, NONE)
    if out is not NONE:
        store(interp, out, SliceV(NONE, NONE, NONE), r)
        return out
    return r


@model("numpy.arctan2 numpy.atan2 math.atan2", "a,b")
def _(interp, a, b):
    x, y = num(interp, a), num(interp, b)
    u = unify_units(interp, x, y, "arctan2")
    return ew(interp, lambda p, q: t.fn("arctan2", p, q), [x, y], unit=un.TABLE["rad"] if u is not None else None)


@model("numpy.hypot", "a,b")
def _(interp, a, b):
    x, y = num(interp, a), num(interp, b)
    u = unify_units(interp, x, y, "hypot")
    return ew(interp, lambda p, q: t.power(t.add(t.power(p, 2), t.power(q, 2)), F(1, 2)), [x, y], unit=u)


@model("numpy.isin numpy.in1d", "a,b,assume_unique=False,invert=False")
def _(interp, a, b, au, inv):
    it = interp.iterate(b) if isinstance(b, (Lst, Tup, SetV)) else None
    if isinstance(a, (Lst, Tup)) and it is not None and it.kind == "items":
        ia = interp.iterate(a)
        if ia is not None and ia.kind == "items":
            es = [contains(interp, b, x) for x in ia.items]
            if interp.known(interp.truth(inv)) is True:
                es = [t.not_(e) for e in es]
            if len(es) == 1:
                return interp.mkarr((t.ONE,), es[0], None, "b")
            ax = t.axis_size(t.num(len(es)))
            return interp.mkarr((ax,), t.tab(es, t.mk("idx", ax)), None, "b")
    x = num(interp, a)
    if x is not None and it is not None and it.kind == "items" and all(isinstance(y, Sc) for y in it.items):
        def f(e):
            r = t.or_(*[t.eq(e, y.e) for y in it.items])
            return t.not_(r) if interp.known(interp.truth(inv)) is True else r
        return ew(interp, f, [x], dt="b")
    if isinstance(a, (Const, Opq)):
        c = contains(interp, b, a)
        if interp.known(interp.truth(inv)) is True:
            c = t.not_(c)
        return interp.boolv(c)
    return interp.unknown("isin", a, b)


@model("numpy.nan_to_num", "x,copy=True,nan=0.0,posinf=None,neginf=None")
def _(interp, x, copy, nan, pi, ni):
    a, b = num(interp, x), num(interp, nan)
    if a is None or b is None:
        return interp.unknown("nan_to_num", x)
    r = ew(interp, lambda e, q: t.mk("app", "nan_to_num", None, (e, q)), [a, b], unit=a.unit)
    if interp.res(copy) is FALSEV and isinstance(a, Arr):
        m.store(interp, a, SliceV(NONE, NONE, NONE), r)
        return a
    return r


@model("numpy.isclose", "a,b,rtol=0.00001,atol=0.00000001,equal_nan=False")
def _(interp, a, b, rtol, atol, en):
    x, y = num(interp, a), num(interp, b)
    if x is None or y is None:
        return interp.unknown("isclose", a, b)
    u = unify_units(interp, x, y, "isclose")
    r, s = interp.elem(rtol), interp.elem(atol)
    return ew(interp, lambda p, q: t.le(t.fn("abs", t.sub(p, q)), t.add(s, t.mul(r, t.fn("abs", q)))), [x, y],
              dt="b")


@model("numpy.allclose", "a,b,rtol=0.00001,atol=0.00000001")
def _(interp, a, b, r, s):
    return MODELS["numpy.all"](interp, [MODELS["numpy.isclose"](interp, [a, b, r, s], {})], {})


@model("numpy.array_equal", "a,b")
def _(interp, a, b):
    x, y = num(interp, a), num(interp, b)
    if x is None or y is None:
        return interp.unknown("array_equal", a, b)
    if len(axes_of(interp, x)) != len(axes_of(interp, y)):
        return FALSEV
    for p, q in zip(axes_of(interp, x), axes_of(interp, y)):
        if p is not q:
            return interp.unknown("array_equal", a, b)
    return MODELS["numpy.all"](interp, [interp.compare("Eq", x, y)], {})


@model("numpy.trapezoid numpy.trapz scipy.integrate.trapezoid scipy.integrate.trapz", "y,x=None,dx=1.0,axis=-1")
def _(interp, y, x, dx, axis):
    a = num(interp, y)
    b = num(interp, x) if x is not NONE else None
    if not isinstance(a, Arr) or (x is not NONE and b is None):
        return interp.unknown("trapezoid", y, x)
    ks = kw_axis(interp, axis, len(a.axes))
    if ks == "?":
        return interp.unknown("trapezoid axis", y)
    p = ks[0]
    ax = a.axes[p]
    ua = a.unit
    if b is not None:
        ub = b.unit
        u = None if ua is None and ub is None else (ua or un.ONE) * (ub or un.ONE)
        if isinstance(b, Arr) and len(b.axes) == 1 and len(a.axes) > 1:
            bx = (t.ONE,) * p + b.axes + (t.ONE,) * (len(a.axes) - 1 - p)
            b = Arr(b.loc, bx, b.sub, b.unit, b.div)
        axes = bcast(interp, [a.axes, axes_of(interp, b)])
        ax = axes[len(axes) - (len(a.axes) - p)]
        eb = interp.elem(b)
        rest = axes[:len(axes) - (len(a.axes) - p)] + axes[len(axes) - (len(a.axes) - p) + 1:]
    else:
        d = num(interp, dx)
        u = ua if d.unit is None else (ua or un.ONE) * d.unit
        eb = t.mul(d.e, interp.idx(ax)) if ax is not t.ONE else t.ZERO
        rest = a.axes[:p] + a.axes[p + 1:]
    if ax is t.ONE:
        e = t.ZERO
    elif ax.kind in ("sub", "flat"):
        e = t.top("trapezoid over a selection", (ax.id, interp.elem(a).id, eb.id))
    else:
        e = t.trapz(ax, interp.elem(a), eb)
    return interp.mkarr(rest, e, u) if rest else Sc(e, u, "np")


@model("numpy.cumsum", "a,axis=None")
def _(interp, a, axis):
    x = num(interp, a)
    if not isinstance(x, Arr):
        return interp.unknown("cumsum", a)
    ks = kw_axis(interp, axis, len(x.axes))
    if ks == "?" or (ks is None and len(x.axes) > 1):
        return interp.unknown("cumsum", a)
    ax = x.axes[ks[0] if ks else 0]
    if ax is t.ONE:
        return x
    if ax.kind in ("sub", "flat"):
        return interp.unknown("cumsum", a)
    return interp.mkarr(x.axes, t.mk("cumsum", ax, t.TRUE, interp.elem(x), t.mk("idx", ax)), x.unit,
                        "i" if interp.dt(x) == "b" else interp.dt(x))


def _opaque_arr(name):
    def f(interp, args, kwargs):
        x = num(interp, args[0])
        if x is None or not isinstance(x, Arr):
            return interp.unknown(name, tuple(args), kwargs)
        axs = tuple(b for a in x.axes for b in t.base_axes(a))
        e = t.mk("app", name, None, (arrterm(interp, x), str(interp.key(tuple(args[1:]))), str(interp.key(kwargs)))
                 + tuple(t.mk("idx", b) for b in axs))
        ints = name in ("argsort", "searchsorted", "digitize")
        return interp.mkarr(x.axes, e, None if ints else x.unit, "i" if ints else interp.dt(x))
    return f


for _n in ("argsort", "sort", "flip", "diff_", "unique_"):
    MODELS["numpy." + _n] = _opaque_arr(_n)


@model("numpy.diff", "a,n=1,axis=-1")
def _(interp, a, n, axis):
    x = num(interp, a)
    if not isinstance(x, Arr) or n.e is not t.ONEN:
        return interp.unknown("diff", a)
    hi = arr_get(interp, x, Tup([Const(Ellipsis), SliceV(fake_int(1), NONE, NONE)]))
    lo = arr_get(interp, x, Tup([Const(Ellipsis), SliceV(NONE, fake_int(-1), NONE)]))
    if not isinstance(hi, Arr) or not isinstance(lo, Arr):
        return interp.unknown("diff", a)
    # same number of entries: reindex the upper part on the axis of the lower one
    p, q = lo.axes[-1], hi.axes[-1]
    e = t.subst(interp.elem(hi), {q: t.mk("idx", p)}) if p is not t.ONE else interp.elem(hi)
    return interp.mkarr(lo.axes, t.sub(e, interp.elem(lo)), x.unit, interp.dt(x))


@model("numpy.unique", "a", kwok=("return_counts", "return_inverse"))
def _(interp, a):
    return interp.unknown("unique", a)


@model("numpy.searchsorted numpy.digitize", "a,v,side='left'")
def _(interp, a, v, side):
    x = num(interp, v)
    if x is None:
        return interp.unknown("searchsorted", a, v)
    k = arrterm(interp, a)
    return ew(interp, lambda e: t.mk("app", "searchsorted", None, (k, e, str(interp.key(side)))), [x], dt="i")


@model("numpy.interp", "x,xp,fp,left=None,right=None")
def _(interp, x, xp, fp, left, right):
    return interp1d_call(interp, xp, fp, x, left, right, edge=True)


@model("numpy.meshgrid", "a,b", kwok=("indexing",))
def _(interp, a, b):
    x, y = num(interp, a), num(interp, b)
    return Tup([broadcast(interp, Arr(x.loc, (t.ONE,) + x.axes, x.sub, x.unit, x.div), y.axes + x.axes),
                broadcast(interp, Arr(y.loc, y.axes + (t.ONE,), y.sub, y.unit, y.div), y.axes + x.axes)])


@model("numpy.outer", "a,b")
def _(interp, a, b):
    x, y = num(interp, a), num(interp, b)
    if isinstance(x, Arr) and isinstance(y, Arr):
        return interp.binop("Mult", Arr(x.loc, x.axes + (t.ONE,), x.sub, x.unit, x.div), y)
    return interp.unknown("outer", a, b)


@model("numpy.dot numpy.inner numpy.vdot", "a,b")
def _(interp, a, b):
    x, y = num(interp, a), num(interp, b)
    if isinstance(x, Arr) and isinstance(y, Arr) and len(x.axes) == len(y.axes) == 1:
        return MODELS["numpy.sum"](interp, [interp.binop("Mult", x, y)], {})
    return interp.unknown("dot", a, b)


@model("numpy.take", "a,ind,axis=None")
def _(interp, a, ind, axis):
    return interp.getitem(a, ind)


@model("numpy.compress", "cond,a")
def _(interp, c, a):
    return interp.getitem(a, c)


@model("numpy.std numpy.var numpy.median numpy.percentile numpy.quantile", "a,q=None,axis=None")
def _(interp, a, q, axis):
    return interp.unknown("statistics", a, q)


@model("numpy.polyval numpy.polynomial.polynomial.polyval_", "p,x")
def _(interp, p, x):
    return poly_call(interp, p, x)


@model("numpy.polynomial.polynomial.polyval", "x,c")
def _(interp, x, c):
    it = interp.iterate(c)
    if it is None or it.kind != "items":
        a = num(interp, c)
        it = interp.iterate(a) if isinstance(a, Arr) else None
    if it is None or it.kind != "items":
        return interp.unknown("polyval", x, c)
    return poly_call(interp, interp.new_list(list(it.items)[::-1]), x)


def poly_call(interp, p, x):
    it = interp.iterate(p)
    if it is None or it.kind != "items":
        return interp.unknown("polynomial", p, x)
    cs = [interp.elem(num(interp, c)) for c in it.items]

    def f(e):
        n = len(cs) - 1
        return t.add(*[t.mul(c, t.power(e, n - i)) for i, c in enumerate(cs)])
    v = num(interp, x)
    if v is None:
        return interp.unknown("polynomial", p, x)
    plaindim(interp, v, "polynomial")
    return ew(interp, f, [v])


@model("numpy.poly1d", "c")
def _(interp, c):
    return Prim("poly1d", lambda i, a, k: i.dist(lambda x: poly_call(i, c, x), a[0]), c)


@model("numpy.issubdtype", "a,b")
def _(interp, a, b):
    if isinstance(a, Opq) and a.tag == "dtype":
        n = typename(b)
        return Const({"integer": a.info == "i", "floating": a.info == "f", "bool_": a.info == "b",
                      "number": a.info in "if", "int": a.info == "i", "float": a.info == "f",
                      "signedinteger": a.info == "i", "int64": a.info == "i", "float64": a.info == "f",
                      "bool": a.info == "b"}.get(n, False))
    return interp.unknown("issubdtype", a, b)


@model("numpy.random.uniform", "low=0.0,high=1.0,size=None")
def _(interp, lo, hi, size):
    return random_like(interp, interp.elem(lo), interp.elem(hi), size)


@model("numpy.random.rand numpy.random.random numpy.random.random_sample", "size=None")
def _(interp, size):
    return random_like(interp, t.ZERO, t.ONEN, size)


def random_like(interp, lo, hi, size):
    interp.rand += 1
    if size is NONE:
        axes = ()
    else:
        axes = shape_axes(interp, size)
        if axes is None:
            return interp.unknown("random", size)
    s = t.sym("random%d" % interp.rand, tuple(b for a in axes for b in t.base_axes(a)), sgn="nn", dom=(0.02, 0.98))
    e = t.add(lo, t.mul(s, t.sub(hi, lo)))
    return interp.mkarr(axes, e) if axes else Sc(e, None, "float")


MODELS["numpy.int64"] = MODELS["numpy.int32"] = lambda i, a, k: astype(i, num(i, a[0]), "i")
MODELS["numpy.float64"] = lambda i, a, k: astype(i, num(i, a[0]), "f")
MODELS["numpy.bool_"] = lambda i, a, k: astype(i, num(i, a[0]), "b")


@model("numpy.errstate", "a=None", kwok=("divide", "invalid", "over", "under", "all"))
def _(interp, a):
    return Opq(t.mk("errstate"), "ext", "errstate")


@model("numpy.seterr", "a=None", kwok=("divide", "invalid", "over", "under", "all"))
def _(interp, a):
    return NONE


@model("numpy.vectorize", "f", kwok=("otypes",))
def _(interp, f):
    return interp.unknown("vectorize", f)


# ====================================================================== numba / functools decorators
def _passthrough(interp, args, kwargs):
    if len(args) == 1 and not kwargs and isinstance(args[0], (Func, Prim, Bound, Opq)):
        return args[0]
    return Prim("decorator", lambda i, a, k: a[0])


for _p in ("numba.jit", "numba.njit", "numba.vectorize", "functools.lru_cache", "numba.cfunc",
           "functools.cache"):
    MODELS[_p] = _passthrough


MODELS["functools.wraps"] = lambda interp, args, kwargs: Prim("decorator", lambda i, a, k: a[0])


@model("functools.update_wrapper", "wrapper,wrapped,assigned=None,updated=None", gates=False)
def _(interp, wrapper, wrapped, assigned, updated):
    return wrapper


@model("functools.partial", "f,*a", gates=False)
def _dummy(interp, f, *a):
    return interp.unknown("partial")


def _partial(interp, args, kwargs):
    f, pre = args[0], list(args[1:])
    return Prim("partial", lambda i, a, k: i.call(f, pre + list(a), {**kwargs, **k}),
                Tup([f] + pre))


MODELS["functools.partial"] = _partial


# ====================================================================== scipy
@model("scipy.special.jv scipy.special.jn", "n,x")
def _(interp, n, x):
    a, b = num(interp, n), num(interp, x)
    if a is None or b is None:
        return interp.unknown("jv", n, x)
    plaindim(interp, a, "Bessel order")
    plaindim(interp, b, "Bessel argument")
    return ew(interp, lambda p, q: t.app("jv", t._bool2num(p), q), [a, b])


@model("scipy.special.j0 scipy.special.j1", "x")
def _(interp, x):
    return interp.unknown("bessel", x)


@model("scipy.integrate.quad", "f,a,b,args=None", gates=False, kwok=("epsabs", "epsrel", "limit", "full_output",
                                                                    "points"))
def _(interp, f, a, b, args):
    a, b = num(interp, a), num(interp, b)
    if a is None or b is None:
        return interp.unknown("quad", f, a, b)
    if isinstance(a, Arr) and all(x is t.ONE for x in a.axes):
        a = Sc(interp.elem(a), a.unit)
    if isinstance(b, Arr) and all(x is t.ONE for x in b.axes):
        b = Sc(interp.elem(b), b.unit)
    if isinstance(a, Arr) or isinstance(b, Arr):
        interp.raise_("TypeError", "quad needs scalar limits", kind="type")
    a, b = plain(interp, a), plain(interp, b)
    q = t.sym("$q", sgn="nn", dom=(0.05, 0.9))
    extra = interp.iterate(args).items if isinstance(args, (Tup, Lst)) else ([] if args is NONE else [args])
    r = num(interp, interp.call(f, [Sc(q, None, "float")] + list(extra), {}))
    if r is None:
        return interp.unknown("quad", f, a, b)
    body = interp.elem(r)
    e = t.mk("quad", q, body, a.e, b.e)
    return Tup([Sc(e, None, "float"), Sc(t.mk("app", "quaderr", None, (e,)), None, "float")])


@model("scipy.integrate.odeint", "f,y0,t,args=None", gates=False, kwok=("rtol", "atol", "mxstep", "hmax"))
def _(interp, f, y0, ts, args):
    y0, ts = num(interp, y0), num(interp, ts)
    if y0 is None or not isinstance(ts, Arr):
        return interp.unknown("odeint", f, y0, ts)
    y0, ts = plain(interp, y0), plain(interp, ts)
    if isinstance(y0, Arr):
        if any(x is not t.ONE for x in y0.axes):
            return interp.unknown("odeint system")
        y0 = Sc(interp.elem(y0))
    ys, tt = t.sym("$y", sgn="nn", dom=(0.05, 0.9)), t.sym("$t", sgn="nn")
    extra = interp.iterate(args).items if isinstance(args, (Tup, Lst)) else ([] if args is NONE else [args])
    r = num(interp, interp.call(f, [Sc(ys, None, "float"), Sc(tt, None, "float")] + list(extra), {}))
    if r is None:
        return interp.unknown("odeint", f)
    if isinstance(r, Arr):
        r = Sc(interp.elem(r)) if all(x is t.ONE for x in r.axes) else r
    ax = ts.axes[0]
    b = t.base_axes(ax)
    ti = interp.elem(ts)
    t0 = t.subst(ti, {b[0]: t.ZERO}) if len(b) == 1 else (ti if ax is t.ONE else t.top("odeint times"))
    e = t.mk("ode", ys, tt, interp.elem(r), y0.e, t0, ti)
    return interp.mkarr((ax, t.ONE), e)


def interp1d_call(interp, xv, yv, q, lo, hi, edge=False, fill=True):
    x, y, a = num(interp, xv), num(interp, yv), num(interp, q)
    if x is None or y is None or a is None or not isinstance(x, Arr) or not isinstance(y, Arr):
        return interp.unknown("interpolation", xv, yv, q)
    x, y, a = plain(interp, x), plain(interp, y), plain(interp, a)
    if len(y.axes) != 1 or len(x.axes) != 1:
        return interp.unknown("interpolation rank")
    ax = x.axes[0]
    if y.axes[0] is not ax:
        ax = conflict(interp, ax, y.axes[0], "interpolation table")
        b = t.base_axes(y.axes[0])
    if ax.kind not in ("sym", "n"):
        k = (arrterm(interp, x), arrterm(interp, y))
        return ew(interp, lambda e: t.mk("app", "interp", None, k + (e,)), [a])
    ex, ey = interp.elem(x), interp.elem(y)

    def bound(v, which):
        if v is None or v is NONE:
            if edge:
                i = t.ZERO if which == "lo" else t.sub(t.size_of(ax), t.ONEN)
                return t.subst(ey, {ax: i})
            return t.NAN
        return interp.elem(num(interp, v))
    l, h = bound(lo, "lo"), bound(hi, "hi")
    return ew(interp, lambda e: t.mk("interp", ax, ex, ey, e, l, h), [a])


@model("scipy.interpolate.interp1d", "x,y,kind=linear,axis=-1,copy=True,bounds_error=None,fill_value=None,assume_sorted=False",
       gates=False)
def _(interp, x, y, kind, axis, copy, be, fv):
    return NONE


def _interp1d(interp, args, kwargs):
    names = ["x", "y", "kind", "axis", "copy", "bounds_error", "fill_value", "assume_sorted"]
    d = dict(zip(names, args))
    d.update(kwargs)
    x, y = interp.res(d["x"]), interp.res(d["y"])
    fv = interp.res(d.get("fill_value", NONE))
    be = interp.res(d.get("bounds_error", NONE))
    kind = interp.res(d.get("kind", NONE))
    lo = hi = NONE
    if isinstance(fv, Tup):
        lo, hi = fv.items[0], fv.items[1]
    elif fv is not NONE and not (isinstance(fv, Const) and fv.v == "extrapolate"):
        lo = hi = fv
    data = Tup([x if not isinstance(x, Arr) else copy_arr(interp, x), y if not isinstance(y, Arr) else copy_arr(interp, y),
                lo, hi, be, kind, Const(isinstance(fv, Const) and fv.v == "extrapolate")])

    def call(i, a, k):
        def go(xx, yy, q):
            if isinstance(kind, Const) and kind.v not in (None, "linear"):
                v = num(i, q)
                kk = (arrterm(i, xx), arrterm(i, yy))
                return ew(i, lambda e: t.mk("app", "interp:" + str(kind.v), None, kk + (e,)), [plain(i, v)])
            if data.items[6].v:
                v = num(i, q)
                kk = (arrterm(i, xx), arrterm(i, yy))
                return ew(i, lambda e: t.mk("app", "interp:extrapolate", None, kk + (e,)), [plain(i, v)])
            raises = (isinstance(be, Const) and be.v is True) or (be is NONE and fv is NONE)
            if raises:
                v = plain(i, num(i, q))
                if v is not None and isinstance(num(i, xx), Arr):
                    X = plain(i, num(i, xx))
                    ax = X.axes[0]
                    b = t.base_axes(ax)
                    if len(b) == 1:
                        x0 = t.subst(i.elem(X), {b[0]: t.ZERO})
                        x1 = t.subst(i.elem(X), {b[0]: t.sub(t.size_of(ax), t.ONEN)})
                        e = i.elem(v)
                        c = t.or_(t.lt(e, t.minmax("min", x0, x1)), t.lt(t.minmax("max", x0, x1), e))
                        for y_ in axes_of(i, v):
                            c = t.reduce_("any", y_, c)
                        i.raise_if(c, "ValueError", "interpolation out of range", kind="range")
            return interp1d_call(i, xx, yy, q, lo, hi)
        return i.dist(go, data.items[0], data.items[1], a[0])
    return Prim("interp1d", call, data)


MODELS["scipy.interpolate.interp1d"] = _interp1d


@model("scipy.interpolate.splrep", "x,y,w=None,xb=None,xe=None,k=3,s=None", gates=False)
def _(interp, x, y, w, xb, xe, k, s):
    term = t.mk("app", "splrep", None, (arrterm(interp, x), arrterm(interp, y),
                                        str(interp.key(k)), str(interp.key(s))))
    return Opq(term, "tck")


@model("scipy.interpolate.splev", "x,tck,der=0,ext=0", gates=False)
def _(interp, x, tck, der, ext):
    v = num(interp, x)
    tck = interp.res(tck)
    if v is None or not isinstance(tck, Opq):
        return interp.unknown("splev", x, tck)
    kk = (tck.term, str(interp.key(der)), str(interp.key(ext)))
    return ew(interp, lambda e: t.mk("app", "splev", None, kk + (e,)), [plain(interp, v)])


def _spline2(interp, args, kwargs):
    names = ["x", "y", "z", "bbox", "kx", "ky", "s"]
    d = dict(zip(names, args))
    d.update(kwargs)
    key = tuple(arrterm(interp, d[n]) for n in ("x", "y", "z"))
    extra = str(interp.key(tuple((k, v) for k, v in sorted(d.items()) if k not in ("x", "y", "z"))))
    term = t.mk("app", "spline2", None, key + (extra,))
    return Prim("spline2", lambda i, a, k: spline2_call(i, term, a, k), Opq(term, "spline"))


def spline2_call(interp, term, a, k, ev=False):
    grid = k.get("grid", TRUEV)
    x, y = num(interp, a[0]), num(interp, a[1])
    if x is None or y is None:
        return interp.unknown("spline", tuple(a))
    if ev or interp.known(interp.truth(grid)) is False:
        return ew(interp, lambda p, q: t.mk("app", "spline_ev", None, (term, t._bool2num(p), q)),
                  [plain(interp, x), plain(interp, y)])
    x = interp.mkarr((t.ONE,), x.e) if isinstance(x, Sc) else plain(interp, x)
    y = interp.mkarr((t.ONE,), y.e) if isinstance(y, Sc) else plain(interp, y)
    x = Arr(x.loc, x.axes + (t.ONE,), x.sub, None, x.div)
    return ew(interp, lambda p, q: t.mk("app", "spline_ev", None, (term, t._bool2num(p), q)), [x, y])


MODELS["scipy.interpolate.RectBivariateSpline"] = _spline2


def prim_attr(interp, o, name):
    if o.name == "spline2" and name == "ev":
        term = o.data.term
        return Prim("spline2.ev", lambda i, a, k: i.dist(lambda p, q: spline2_call(i, term, [p, q], {}, True),
                                                         a[0], a[1]), o.data)
    if o.name == "interp1d":
        idx = {"x": 0, "y": 1, "fill_value": 2, "bounds_error": 4}
        if name in idx:
            return o.data.items[idx[name]]
    if o.name == "partial" and name == "func":
        return o.data.items[0]
    return None


# ====================================================================== astropy
def _quantity(interp, args, kwargs):
    names = ["value", "unit", "dtype", "copy"]
    d = dict(zip(names, args))
    d.update(kwargs)
    v = interp.res(d["value"])
    w = as_unit(interp, d["unit"]) if interp.res(d.get("unit", NONE)) is not NONE else None

    def go(v):
        if isinstance(v, (Lst, Tup)):
            x = asarray(interp, v, keepunit=True)
        else:
            x = num(interp, v)
        if x is None or not isinstance(x, (Sc, Arr)):
            return interp.unknown("Quantity", v)
        if x.unit is None:
            uu = w or un.ONE
            return ew(interp, lambda e: t.mul(t._bool2num(e), uu.scale), [x], unit=uu)
        same = interp.res(d.get("copy", TRUEV)) is FALSEV
        if w is None:
            return x if same else copy_arr(interp, x)
        return as_unit_view(interp, x, w) if same else to_unit(interp, x, w)
    return interp.dist(go, v)


MODELS["astropy.units.Quantity"] = _quantity
for _n in ("Angle", "Longitude", "Latitude", "Distance"):
    MODELS["astropy.coordinates." + _n] = _quantity


@model("astropy.units.Unit", "u")
def _(interp, x):
    w = as_unit(interp, x)
    if w is None:
        return interp.unknown("Unit", x)
    return UnitV(w)


@model("astropy.visualization.quantity_support", "a=None", kwok=("format",))
def _(interp, a):
    return Opq(t.mk("quantity_support"), "ext", "quantity_support")


_LL = {"barycentrictrueecliptic": ("lon", "lat"), "galactic": ("l", "b"), "icrs": ("ra", "dec"), "fk5": ("ra", "dec")}


def _skycoord(interp, args, kwargs):
    d = dict(kwargs)
    if args:
        a0 = interp.res(args[0])
        if isinstance(a0, Obj) and isinstance(interp.rec(a0), ObjRec) and interp.rec(a0).cls == "SkyCoord":
            return a0
        for n, v in zip(("c1", "c2", "c3"), args):
            d[n] = v
    fr = interp.res(d.get("frame", Const("icrs")))
    if not isinstance(fr, Const):
        fr = Const("frame?")
    lon = lat = None
    for p, q in (("lon", "lat"), ("l", "b"), ("ra", "dec"), ("c1", "c2")):
        if p in d and q in d:
            lon, lat = d[p], d[q]
            if p == "l" and "frame" not in d:
                fr = Const("galactic")
    if lon is None:
        return interp.unknown("SkyCoord", kwargs)
    w = d.get("unit")

    def ang(x):
        x = interp.res(x)
        if w is not None and isinstance(x, (Sc, Arr)) and x.unit is None:
            uu = as_unit(interp, w)
            if uu is not None:
                return interp.binop("Mult", x, UnitV(uu))
        return x
    at = {"lon": ang(lon), "lat": ang(lat), "frame": fr, "distance": d.get("distance", NONE)}
    return Obj(interp.alloc(ObjRec("SkyCoord", at)))


MODELS["astropy.coordinates.SkyCoord"] = _skycoord


# ====================================================================== h5py
def _h5open(interp, args, kwargs):
    names = ["name", "mode"]
    d = dict(zip(names, args))
    d.update(kwargs)
    key = repr(interp.key(d["name"]))
    mode = interp.res(d.get("mode", Const("r")))
    md = mode.v if isinstance(mode, Const) else "?"
    ev = record(interp, "h5py.File", [d["name"], mode], {})
    if md in ("w", "w-", "x"):
        root = h5group(interp, "h5file")
        interp.files[key] = root
        return root
    if md in ("a", "r+") and key not in interp.files:
        root = h5group(interp, "h5file")
        interp.files[key] = root
        return root
    if key in interp.files:
        return interp.files[key]
    if interp.scenario.get("anyfile") is not None:
        return interp.scenario["anyfile"]
    interp.raise_("FileNotFoundError", "no such file", kind="file")


MODELS["h5py.File"] = _h5open


def h5group(interp, cls):
    at = Obj(interp.alloc(ObjRec("h5attrs", {}, interp.alloc(DictRec({})))))
    return Obj(interp.alloc(ObjRec(cls, {"attrs": at}, interp.alloc(DictRec({})))))


def h5store(interp, o, name, data):
    p = interp.payload(o)
    at = Obj(interp.alloc(ObjRec("h5attrs", {}, interp.alloc(DictRec({})))))
    data = interp.res(data)

    def conv(x):
        if isinstance(x, (Lst, Tup)):
            x = asarray(interp, x)
        if isinstance(x, Arr):
            x = copy_arr(interp, plain(interp, x))
        elif isinstance(x, Sc):
            x = plain(interp, x)
        elif isinstance(x, Const) and x.v is None:
            interp.raise_("TypeError", "cannot store None in a data set", kind="type")
        return x
    data = interp.dist(conv, data)
    ds = Obj(interp.alloc(ObjRec("h5dset", {"attrs": at, "data": data})))
    interp.setitem(p, name, ds)
    return ds


def h5attr_value(interp, v):
    """what h5py gives back for a stored attribute"""
    v = interp.res(v)
    if isinstance(v, Gate):
        return interp.merge(v.c, h5attr_value(interp, v.a), h5attr_value(interp, v.b), named=True)
    if isinstance(v, Sc):
        if v.unit is not None:
            return plain(interp, Sc(v.e, v.unit, "np"))
        return Sc(v.e, None, {"int": "npint", "float": "np"}.get(v.kind, v.kind))
    if isinstance(v, Const) and isinstance(v.v, bool):
        return Sc(t.TRUE if v.v else t.FALSE, None, "bool")
    if isinstance(v, Const) and v.v is None:
        interp.raise_("TypeError", "cannot store None as an attribute", kind="type")
    if isinstance(v, (Func, Prim, Bound)):
        interp.raise_("TypeError", "cannot store a function as an attribute", kind="type")
    if isinstance(v, (Lst, Tup)):
        return asarray(interp, v)
    return v


def ext_contains(interp, box, r, x):
    if r.payload is not None:
        return contains(interp, Dct(r.payload), x)
    return t.truth(t.top("membership"))


def ext_getitem(interp, o, r, k):
    if r.cls == "SkyCoord":
        at = {}
        for n in ("lon", "lat", "distance"):
            v = interp.res(r.attrs[n])
            at[n] = v if v is NONE else interp.getitem(v, k)
        at["frame"] = r.attrs["frame"]
        return Obj(interp.alloc(ObjRec("SkyCoord", at)))
    if r.cls == "h5attrs":
        return h5attr_value(interp, m.dict_get(interp, Dct(r.payload), k, True))
    if r.cls in ("h5file", "h5group"):
        if isinstance(k, Const) and isinstance(k.v, str) and "/" in k.v:
            a, b = k.v.split("/", 1)
            return interp.getitem(interp.getitem(o, Const(a)), Const(b))
        return m.dict_get(interp, Dct(r.payload), k, True)
    if r.cls == "h5dset":
        v = r.attrs["data"]
        if isinstance(k, Tup) and not k.items or isinstance(k, Const) and k.v is Ellipsis or \
                isinstance(k, SliceV) and all(interp.res(x) is NONE for x in (k.a, k.b, k.c)):
            return interp.dist(lambda x: copy_arr(interp, x) if isinstance(x, Arr) else x, v)
        return interp.getitem(v, k)
    return interp.unknown("item of " + r.cls, k)


def ext_setitem(interp, o, r, k, v):
    if r.payload is None:
        interp.unknown("item store on " + r.cls)
        return
    if r.cls == "h5attrs":
        h5attr_value(interp, v)
        interp.setitem(Dct(r.payload), k, v)
        return
    if r.cls in ("h5file", "h5group"):
        kk = interp.res(k)
        h5store(interp, o, kk, v)
        return
    interp.setitem(Dct(r.payload), k, v)


def ext_attr(interp, o, r, name):
    P = lambda f: Prim("%s.%s" % (r.cls, name), f)
    if r.cls == "SkyCoord":
        if name in ("lon", "lat", "distance"):
            return r.attrs[name]
        fr = r.attrs["frame"].v
        al = dict(zip(_LL.get(fr, ("lon", "lat")), ("lon", "lat")))
        if name in al:
            return r.attrs[al[name]]
        if name == "transform_to":
            def tr(i, a, k):
                f = i.res(a[0] if a else k.get("frame"))
                to = f.v if isinstance(f, Const) else "frame?"
                to = str(to).lower()
                if isinstance(f, Const) and to == str(fr).lower():
                    return o
                rr = i.rec(o)
                at = {"frame": Const(to), "distance": rr.attrs["distance"]}
                for n in ("lon", "lat"):
                    at[n] = i.dist(lambda x, y: ew(i, lambda p, q: t.app("%s:%s:%s" % (fr, to, n), p, q),
                                                   [x, y], unit=un.TABLE["rad"]), rr.attrs["lon"], rr.attrs["lat"])
                return Obj(i.alloc(ObjRec("SkyCoord", at)))
            return P(tr)
        if name in _LL:
            return interp.call(ext_attr(interp, o, r, "transform_to"), [Const(name)], {})
        if name == "shape":
            return interp.getattr(r.attrs["lon"], "shape")
        if name == "isscalar":
            return interp.getattr(r.attrs["lon"], "isscalar")
        if name in ("size", "ndim"):
            return interp.getattr(r.attrs["lon"], name)
        if name == "frame":
            return Opq(t.mk("frame", fr), "frame", fr)
    if r.cls in ("h5file", "h5group", "h5dset") and name == "attrs":
        return r.attrs["attrs"]
    if r.cls in ("h5file", "h5group"):
        if name == "create_dataset":
            def cd(i, a, k):
                nm = a[0] if a else k["name"]
                i.raise_if(ext_contains(i, o, i.rec(o), i.res(nm)), "ValueError", "the name already exists", kind="file")
                return h5store(i, o, i.res(nm), k.get("data", a[1] if len(a) > 1 else NONE))
            return P(cd)
        if name in ("create_group", "require_group"):
            def cg(i, a, k):
                g = h5group(i, "h5group")
                if name == "create_group":
                    i.raise_if(ext_contains(i, o, i.rec(o), i.res(a[0] if a else k["name"])), "ValueError",
                               "the name already exists", kind="file")
                i.setitem(i.payload(o), i.res(a[0] if a else k["name"]), g)
                return g
            return P(cg)
        if name in ("close", "flush"):
            return P(lambda i, a, k: NONE)
    if r.cls == "h5dset":
        if name in ("shape", "dtype", "ndim", "size"):
            return interp.getattr(r.attrs["data"], name)
    if r.payload is not None and name in ("get", "items", "keys", "values", "update", "setdefault", "pop"):
        d = Dct(r.payload)
        if r.cls == "h5attrs":
            if name == "get":
                def g(i, a, k):
                    dv = a[1] if len(a) > 1 else NONE
                    v = m.dict_get(i, d, a[0], False)
                    v = i.res(v)
                    if v is ABSENT:
                        return dv
                    if isinstance(v, Gate) and present(v) is not t.TRUE:
                        return m.or_default(i, v, dv)
                    return h5attr_value(i, v)
                return P(g)
            if name in ("items", "values"):
                def it(i, a, k):
                    rr = i.dictrec(d)
                    f = (lambda kk, v: Tup([kk, h5attr_value(i, v)])) if name == "items" else \
                        (lambda kk, v: h5attr_value(i, v))
                    return Iter("items", m.cond_items(i, rr, f))
                return P(it)
            if name == "update":
                def up(i, a, k):
                    p = dict_pairs(i, a[0]) if a else DictRec({})
                    if p is None:
                        return i.unknown("attrs.update")
                    for kk, v in list(p.d.items()) + list(k.items()):
                        ext_setitem(i, o, r, i.unkey(kk), v)
                    return NONE
                return P(up)
        mm = m.dict_method(interp, d, name)
        if mm is not None:
            return mm
    if name.startswith("__"):
        interp.raise_("AttributeError", name, kind="attr")
    return interp.unknown("attribute %s of %s" % (name, r.cls), o)


# ====================================================================== data files
def _np_load(interp, args, kwargs):
    p = interp.res(args[0] if args else kwargs.get("file"))
    name = None
    if isinstance(p, Opq) and p.tag in ("path", "str") and p.info is not None and isinstance(p.info, tuple):
        name = p.info[-1]
    if isinstance(p, Const) and isinstance(p.v, str):
        name = os.path.basename(p.v)
    if name is None:
        record(interp, "numpy.load", args, {})
        return interp.unknown("np.load", tuple(args))
    record(interp, "numpy.load", [Const(name)], {})
    if name in interp.scenario.get("missing", ()):
        interp.raise_("FileNotFoundError", name, kind="file")
    if name == "R.npy":
        ax = t.axis_sym("NR", 4)
        fx = t.sym("R_f", (ax,), sgn="p", dom=(1e-3, 1e3))
        ry = t.sym("R_val", (ax,), sgn="p", dom=(1e-3, 1))
        two = t.axis_size(t.num(2))
        return interp.mkarr((two, ax), t.tab([fx, ry], t.mk("idx", two)))
    if name == "peters_g.npy":
        a, b = t.axis_size(t.num(1000)), t.axis_size(t.num(10000))
        return interp.mkarr((a, b), t.sym("peters_g_table", (a, b), sgn="nn", dom=(0, 1)))
    return Opq(t.mk("npload", name), "npload", name)


MODELS["numpy.load"] = _np_load


def npload_attr(interp, o, name):
    if name == "item":
        return Prim("npload.item", lambda i, a, k: o)
    if name == "files":
        return interp.unknown("npload.files")
    if name in ("close",):
        return Prim("npload.close", lambda i, a, k: NONE)
    if name in ("keys", "items"):
        return Prim("npload." + name, lambda i, a, k: i.unknown("npload." + name))
    return None


def npload_item(interp, o, k):
    k = interp.res(k)
    if not isinstance(k, Const):
        return None
    if o.info == "harmonics.npz":
        if k.v == "e_lims":
            return Tup([Sc(t.sym("e_min", sgn="nn", dom=(0.01, 0.05)), None, "np"),
                        Sc(t.sym("e_max", sgn="nn", dom=(0.9, 0.95)), None, "np"),
                        Sc(t.sym("e_len", sgn="p", isint=True, dom=(4, 4)), None, "np")])
        if k.v == "n_max":
            return Sc(t.sym("n_max", sgn="p", isint=True, dom=(5, 5)), None, "0d")
        if k.v == "g_vals":
            a = t.axis_size(t.sym("e_len", sgn="p", isint=True, dom=(4, 4)))
            b = t.axis_size(t.sym("n_max", sgn="p", isint=True, dom=(5, 5)))
            return interp.mkarr((a, b), t.sym("g_vals", (a, b), sgn="nn", dom=(0, 1)))
        interp.raise_("KeyError", str(k.v), kind="key")
    if o.info == "verification_binaries.npy":
        V = t.axis_sym("V", 2)
        U = un.TABLE

        def q(n, unit, dom, sgn="p"):
            return interp.mkarr((V,), t.sym("vb_" + n, (V,), sgn=sgn, dom=dom), U[unit] if unit else None)
        d = {"m_1": lambda: q("m_1", "Msun", (4e29, 2e30)), "m_2": lambda: q("m_2", "Msun", (4e29, 2e30)),
             "dist": lambda: q("dist", "kpc", (1e18, 1e20)), "f_GW": lambda: q("f_GW", "mHz", (1e-4, 5e-3)),
             "i": lambda: q("i", "deg", (0.1, 1.5)), "l_gal": lambda: q("l_gal", "deg", (0.1, 6.0)),
             "b_gal": lambda: q("b_gal", "deg", (-1.4, 1.4), None), "snr": lambda: q("snr", None, (5, 100)),
             "label": lambda: q("label", None, (0, 1))}
        if k.v in d:
            return d[k.v]()
        return Opq(t.mk("item", o.term, k.v), "?", "data")
    return None


# ====================================================================== files, logging, processes
def path_parts(interp, v):
    v = interp.res(v)
    if isinstance(v, Const) and isinstance(v.v, str):
        return (v.v,)
    if isinstance(v, Opq) and v.tag in ("path", "str") and isinstance(v.info, tuple):
        return v.info
    if isinstance(v, Opq):
        return (v.term,)
    return (repr(interp.key(v)),)


def _join(interp, args, kwargs):
    parts = sum((path_parts(interp, a) for a in args), ())
    if all(isinstance(p, str) for p in parts):
        return Const(os.path.join(*parts))
    return Opq(t.mk("path", parts), "path", parts)


MODELS["os.path.join"] = _join


@model("importlib.resources.files importlib.resources.path importlib_resources.files", "package,name=None")
def _(interp, p, name):
    parts = ("<resources>",) + path_parts(interp, p) + (path_parts(interp, name) if name is not NONE else ())
    return Opq(t.mk("path", parts), "path", parts)


@model("os.path.isfile os.path.exists os.path.lexists", "p")
def _(interp, p):
    key = repr(interp.key(p))
    record(interp, "os.path.isfile", [p], {})
    if key in interp.files:
        return TRUEV
    return Sc(t.mk("bapp", "isfile", (t.mk("path", path_parts(interp, p)),)), None, "bool")


@model("os.path.basename", "p")
def _(interp, p):
    pp = path_parts(interp, p)
    return Const(os.path.basename(pp[-1])) if isinstance(pp[-1], str) else interp.unknown("basename", p)


@model("os.path.splitext", "p")
def _(interp, p):
    pp = path_parts(interp, p)
    if isinstance(pp[-1], str):
        a, b = os.path.splitext(pp[-1])
        return Tup([Const(a), Const(b)])
    return Tup([interp.unknown("splitext", p), interp.unknown("splitext ext", p)])


@model("schwimmbad.MultiPool schwimmbad.SerialPool multiprocessing.Pool schwimmbad.multiprocessing.MultiPool "
       "schwimmbad.choose_pool multiprocessing.pool.Pool multiprocessing.pool.ThreadPool "
       "concurrent.futures.ProcessPoolExecutor", "processes=None", kwok=("mpi", "max_workers"))
def _(interp, n):
    m.record(interp, "pool", [n], {})
    return Opq(t.mk("pool"), "pool", "pool")


def _sent(interp, f, *its):
    """a worker process gets the function by name and the items by value"""
    ev = m.record(interp, "pool.send", [], {})
    ev.args = [f] + [x.value if x.kind == "gen" else Tup([y for y in x.items if not type(y).__name__ == "_Cond"])
                     for x in (interp.iterate(i) for i in its) if x is not None]


_old_call_opaque = m.call_opaque


def call_opaque(interp, f, args, kwargs):
    if f.tag == "method" and f.info[0].tag == "pool":
        if f.info[1] in ("map", "imap", "starmap", "imap_unordered") and len(args) > 1:
            _sent(interp, *args[:2])
        if f.info[1] == "imap_unordered":
            it = _map(interp, list(args[:2]), {})
            if isinstance(it, Iter) and it.kind == "gen":
                x = m.asarray(interp, Lst(interp.alloc(GenRec(it.axis, it.value))))
                if isinstance(x, Arr):
                    return m.getitem(interp, x, SliceV(NONE, NONE, Sc(t.num(-1), None, "int")))
            elif isinstance(it, Iter):
                return interp.new_list(list(reversed(it.items)))
            return interp.unknown("pool.imap_unordered", tuple(args))
        if f.info[1] in ("map", "imap"):
            it = _map(interp, list(args[:2]), {})
            if isinstance(it, Iter):
                return interp.new_list(it.items) if it.kind == "items" else \
                    Lst(interp.alloc(GenRec(it.axis, it.value)))
            return it
        if f.info[1] == "starmap":
            g = args[0]
            it = _map(interp, [Prim("star", lambda i, a, k: i.call(g, i.iterate(a[0]).items, {})), args[1]], {})
            if isinstance(it, Iter):
                return interp.new_list(it.items) if it.kind == "items" else \
                    Lst(interp.alloc(GenRec(it.axis, it.value)))
            return it
        if f.info[1] in ("close", "join", "terminate"):
            return NONE
        return interp.unknown("pool." + f.info[1], tuple(args))
    return _old_call_opaque(interp, f, args, kwargs)


m.call_opaque = call_opaque


@model("logging.getLogger", "name=None")
def _(interp, name):
    return Opq(t.mk("logger", str(interp.key(name))), "logger", "logger")


@model("matplotlib.pyplot.subplots", "nrows=1,ncols=1", kwok=("figsize", "sharex", "sharey", "gridspec_kw", "layout",
                                                              "constrained_layout", "dpi", "subplot_kw"))
def _(interp, r, c):
    record(interp, "matplotlib.pyplot.subplots", [], {})
    interp.fresh += 1
    n = len([e for e in interp.events if e.name == "matplotlib.pyplot.subplots"])
    return Tup([Opq(t.mk("newfig", n), "fig", None), Opq(t.mk("newax", n), "ax", None)])


# ====================================================================== builtins
def _P(name, f):
    return Prim(name, f)


def isinst(interp, v, ty):
    """term: isinstance(v, ty)"""
    v, ty = interp.res(v), interp.res(ty)
    if isinstance(ty, Tup):
        return t.or_(*[isinst(interp, v, x) for x in ty.items])
    if isinstance(v, Gate):
        return t.ite(v.c, isinst(interp, v.a, ty), isinst(interp, v.b, ty))
    B = lambda b: t.TRUE if b else t.FALSE
    if isinstance(ty, Opq) and ty.tag == "types":
        return t.or_(*[isinst(interp, v, x) for x in ty.info])
    if isinstance(ty, Cls):
        if isinstance(v, Obj):
            r = interp.rec(v)
            return B(isinstance(r, ObjRec) and isinstance(r.cls, Cls) and ty in r.cls.mro)
        if isinstance(v, Opq) and v.term.top and v.tag == "?":
            return t.truth(t.top("type of unknown"))
        return t.FALSE
    n = typename(ty) or "?"
    path = ty.path if isinstance(ty, Ext) else n
    if isinstance(v, Opq):
        if v.tag in ("str", "symstr"):
            return B(n == "str")
        if v.tag == "callable":
            return B(n in ("Callable", "function", "FunctionType", "object"))
        if v.tag in ("fig", "ax", "logger", "pool", "ext", "tck", "spline", "dtype", "npload"):
            return B(n == "object")
        if v.tag == "path":
            return t.truth(t.top("type of a path"))
        return t.truth(t.top("type of unknown", (v.term, n)))
    if n == "object":
        return t.TRUE
    if isinstance(v, Const):
        if v.v is None:
            return B(n == "NoneType")
        return B(n == type(v.v).__name__ or (isinstance(v.v, bool) and n in ("int", "Number", "Integral", "Real")))
    if isinstance(v, Sc):
        if v.unit is not None:
            return B(n in ("Quantity", "ndarray"))
        k = v.kind
        return B(n in {"int": ("int", "Number", "Integral", "Real"), "float": ("float", "Number", "Real"),
                       "bool": ("bool", "bool_", "int", "Number"), "np": ("float", "float64", "floating", "generic", "Number", "Real",
                                                        "number", "inexact"),
                       "npint": ("int64", "integer", "generic", "Number", "number", "Integral", "Real",
                                 "signedinteger"),
                       "0d": ("ndarray",)}[k])
    if isinstance(v, Arr):
        return B(n == "ndarray" or (n == "Quantity" and v.unit is not None) or
                 n in ("Iterable", "Collection"))
    if isinstance(v, Lst):
        return B(n in ("list", "Sequence", "Iterable", "Collection"))
    if isinstance(v, Tup):
        return B(n in ("tuple", "Sequence", "Iterable", "Collection"))
    if isinstance(v, (Dct, AttrDict)):
        return B(n in ("dict", "Mapping", "MutableMapping"))
    if isinstance(v, SetV):
        return B(n in ("set", "frozenset"))
    if isinstance(v, SliceV):
        return B(n == "slice")
    if isinstance(v, UnitV):
        return B(n in ("Unit", "UnitBase", "IrreducibleUnit", "PrefixUnit", "CompositeUnit"))
    if isinstance(v, Cls):
        return B(n in ("type",))
    if isinstance(v, (Func, Bound, Prim)):
        return B(n in ("Callable", "FunctionType", "LambdaType", "function") or
                 (n == "type" and isinstance(v, Prim) and v.name in _TYPES))
    if isinstance(v, Obj):
        r = interp.rec(v)
        if isinstance(r, ObjRec) and isinstance(r.cls, str):
            return B(n == r.cls)
        if isinstance(r, ObjRec) and r.payload is not None and n in ("dict", "Mapping", "MutableMapping"):
            return t.TRUE
        return t.FALSE
    if isinstance(v, RangeV):
        return B(n == "range")
    return t.FALSE


_TYPES = {"int", "float", "str", "bool", "list", "tuple", "dict", "set", "type", "object", "slice", "complex",
          "bytes", "frozenset", "range"}


def is_callable(interp, v):
    v = interp.res(v)
    if isinstance(v, Gate):
        return t.ite(v.c, is_callable(interp, v.a), is_callable(interp, v.b))
    if isinstance(v, (Func, Bound, Prim, Cls, Ext)):
        return t.TRUE
    if isinstance(v, Opq):
        if v.tag == "callable":
            return t.TRUE
        if v.tag == "?" and v.term.top:
            return t.truth(t.top("callable", v.term))
        return t.FALSE
    if isinstance(v, Obj):
        return t.TRUE if interp.find_attr(v, "__call__") is not None else t.FALSE
    return t.FALSE


def _map(interp, args, kwargs):
    f = args[0]
    if len(args) == 2:
        src = args[1]
        wrap = lambda x: [x]
    else:
        src = _zip(interp, args[1:], {})
        wrap = lambda x: list(x.items)
    it = interp.iterate(src)
    if it is None:
        return interp.unknown("map", f, src)
    if it.kind == "gen":
        interp.genloops.append(it.axis)
        try:
            return Iter("gen", axis=it.axis, value=interp.call(f, wrap(it.value), {}))
        finally:
            interp.genloops.pop()
    out = []
    from .interp import _Cond
    for x in it.items:
        if isinstance(x, _Cond):
            r = [None]

            def body(x=x, r=r):
                r[0] = interp.call(f, wrap(x.v), {})
            interp.fork(x.c, body, lambda: None)
            out.append(_Cond(x.c, r[0]))
        else:
            out.append(interp.call(f, wrap(x), {}))
    return Iter("items", out)


def _zip(interp, args, kwargs):
    its = [interp.iterate(a) for a in args]
    if any(i is None for i in its):
        return interp.unknown("zip", tuple(args))
    if all(i.kind == "items" for i in its):
        if any(type(x).__name__ == "_Cond" for i in its for x in i.items):
            return interp.unknown("zip of conditional items")
        return Iter("items", [Tup(x) for x in zip(*[i.items for i in its])])
    gens = [i for i in its if i.kind == "gen"]
    ax = gens[0].axis
    for g in gens[1:]:
        if g.axis is not ax:
            h = interp.hook_axis_cmp
            if h is None or not h(g.axis, ax):
                return interp.unknown("zip of different lengths", tuple(args))
    vals = []
    for i in its:
        if i.kind == "gen":
            vals.append(i.value)
        elif len(i.items) == 1:
            return interp.unknown("zip", tuple(args))
        else:
            return interp.unknown("zip", tuple(args))
    return Iter("gen", axis=ax, value=Tup(vals))


def _enumerate(interp, args, kwargs):
    it = interp.iterate(args[0])
    st = interp.elem(args[1]) if len(args) > 1 else t.ZERO
    if it is None:
        return interp.unknown("enumerate", args[0])
    if it.kind == "items":
        if any(type(x).__name__ == "_Cond" for x in it.items):
            return interp.unknown("enumerate of conditional items")
        return Iter("items", [Tup([Sc(t.add(st, t.num(i)), None, "int"), x]) for i, x in enumerate(it.items)])
    return Iter("gen", axis=it.axis, value=Tup([Sc(t.add(st, interp.idx(it.axis)), None, "int"), it.value]))


def _range(interp, args, kwargs):
    es = []
    for a in args:
        a = interp.res(a)
        e = int_term(a) if isinstance(a, Sc) else None
        if e is None:
            if isinstance(a, Sc) and a.unit is None:
                interp.raise_("TypeError", "range needs integers", kind="type")
            return interp.unknown("range", tuple(args))
        es.append(e)
    if len(es) == 1:
        return RangeV(t.ZERO, es[0], t.ONEN)
    return RangeV(es[0], es[1], es[2] if len(es) > 2 else t.ONEN)


def _anyall(kind):
    def f(interp, args, kwargs):
        v = interp.res(args[0])
        if isinstance(v, Gate):
            return interp.dist(lambda x: f(interp, [x], kwargs), v)
        if isinstance(v, Arr):
            return MODELS["numpy." + kind](interp, [v], {})
        it = interp.iterate(v)
        if it is None:
            return interp.boolv(t.truth(t.top(kind, interp.key(v))))
        if it.kind == "gen":
            return interp.boolv(t.reduce_(kind, it.axis, interp.truth(it.value)))
        cs = []
        for x in it.items:
            if type(x).__name__ == "_Cond":
                c = interp.truth(x.v)
                cs.append(t.and_(x.c, c) if kind == "any" else t.or_(t.not_(x.c), c))
            else:
                cs.append(interp.truth(x))
        return interp.boolv(t.or_(*cs) if kind == "any" else t.and_(*cs))
    return f


def _sum(interp, args, kwargs):
    v = interp.res(args[0])
    if isinstance(v, Arr) and len(v.axes) == 1:
        return MODELS["numpy.sum"](interp, [v], {})
    it = interp.iterate(v)
    st = args[1] if len(args) > 1 else kwargs.get("start", Sc(t.ZERO, None, "int"))
    if it is None:
        return interp.unknown("sum", v)
    if it.kind == "items":
        r = st
        for x in it.items:
            if type(x).__name__ == "_Cond":
                x = interp.merge(x.c, x.v, Sc(t.ZERO, None, "int"))
            r = interp.binop("Add", r, x)
        return r
    x = interp.res(it.value)
    if isinstance(x, (Sc, Arr)):
        r = t.reduce_("sum", it.axis, interp.elem(x))
        y = Sc(r, x.unit, "np") if isinstance(x, Sc) else interp.mkarr(x.axes, r, x.unit)
        return interp.binop("Add", st, y)
    return interp.unknown("sum", v)


def _mxmn(kind):
    def f(interp, args, kwargs):
        if len(args) == 1:
            v = interp.res(args[0])
            if isinstance(v, Arr):
                return MODELS["numpy." + kind](interp, [v], {})
            it = interp.iterate(v)
            if it is None:
                return interp.unknown(kind, v)
            if it.kind == "gen":
                x = interp.res(it.value)
                return Sc(t.reduce_(kind, it.axis, interp.elem(x)), unit_of(x), "np")
            args = it.items
        if "key" in kwargs or not args:
            return interp.unknown(kind)
        r = args[0]
        for x in args[1:]:
            r = interp.dist(lambda p, q: _mm(kind)(interp, p, q, NONE), r, x)
            if isinstance(r, Sc) and r.kind == "npint":
                r = Sc(r.e, r.unit, "int")
        return r
    return f


def _num_type(dt, kind):
    def f(interp, args, kwargs):
        if not args:
            return Sc(t.ZERO, None, kind) if kind != "bool" else FALSEV
        v = interp.res(args[0])
        if isinstance(v, Gate):
            return interp.dist(lambda x: f(interp, [x], {}), v)
        if kind == "bool":
            return interp.boolv(interp.truth(v))
        if isinstance(v, Const) and isinstance(v.v, str):
            try:
                x = int(v.v) if kind == "int" else float(v.v)
            except ValueError:
                interp.raise_("ValueError", "invalid literal", kind="str")
            return Sc(t.num(x), None, kind)
        x = num(interp, v)
        if isinstance(x, Arr) and all(a is t.ONE for a in x.axes):
            x = Sc(interp.elem(x), x.unit)
        if not isinstance(x, Sc):
            if isinstance(x, Arr) or v is NONE:
                interp.raise_("TypeError", "%s() of %s" % (kind, type(v).__name__), kind="type")
            return interp.unknown(kind + "()", v)
        if x.unit is not None and not x.unit.dimensionless:
            interp.raise_("TypeError", "only dimensionless quantities convert to numbers", kind="unit")
        e = t._bool2num(x.e)
        if kind == "int":
            e = t.fn("trunc", e)
        return Sc(e, None, kind)
    return f


def _abs(interp, args, kwargs):
    v = interp.res(args[0])
    r = MODELS["numpy.abs"](interp, [v], {})
    if isinstance(r, Sc) and isinstance(v, Sc) and v.kind in ("int", "float"):
        return Sc(r.e, r.unit, v.kind)
    return r


def _str(interp, args, kwargs):
    if not args:
        return Const("")
    v = interp.res(args[0])
    if isinstance(v, Gate):
        return interp.dist(lambda x: _str(interp, [x], {}), v)
    if isinstance(v, Const):
        return Const(str(v.v))
    if isinstance(v, UnitV):
        return unit_str(v.u)
    if isinstance(v, Opq) and v.tag in ("str", "path", "symstr"):
        return v
    if isinstance(v, Sc) and v.unit is None and v.e.op == "num" and v.kind == "int":
        return Const(str(int(v.e.args[0])))
    if isinstance(v, Obj):
        for nm in ("__str__", "__repr__"):
            f = interp.find_attr(v, nm)
            if f is not None:
                return interp.call(f, [], {})
    return interp.strcat([("fmt", v, None)])


def _list(interp, args, kwargs):
    if not args:
        return interp.new_list([])
    v = interp.res(args[0])
    if isinstance(v, Gate):
        return interp.dist(lambda x: _list(interp, [x], {}), v)
    it = interp.iterate(v)
    if it is None:
        if isinstance(v, (Sc,)) or v is NONE:
            interp.raise_("TypeError", "not iterable", kind="type")
        return interp.unknown("list()", v)
    if it.kind == "items":
        return interp.new_list(it.items)
    return Lst(interp.alloc(GenRec(it.axis, it.value)))


def _tuple(interp, args, kwargs):
    if not args:
        return Tup([])
    v = interp.res(args[0])
    if isinstance(v, Gate):
        return interp.dist(lambda x: _tuple(interp, [x], {}), v)
    it = interp.iterate(v)
    if it is None or it.kind != "items":
        return _list(interp, args, kwargs)
    return Tup(it.items)


def _set(interp, args, kwargs):
    if not args:
        return SetV([])
    it = interp.iterate(args[0])
    if it is None or it.kind != "items":
        return interp.unknown("set()", args[0])
    if any(type(x).__name__ == "_Cond" for x in it.items):
        return interp.unknown("set() of conditional items", args[0])
    seen = {}
    for x in it.items:
        seen.setdefault(repr(interp.key(x)), x)
    return SetV(list(seen.values()))


def _dict(interp, args, kwargs):
    o = interp.new_dict({})
    dict_init(interp, o, args, kwargs)
    return o


def _sorted(interp, args, kwargs):
    it = interp.iterate(args[0])
    if it is not None and it.kind == "items" and "key" not in kwargs:
        xs = [pyconst(interp, x) for x in it.items if type(x).__name__ != "_Cond"]
        if len(xs) == len(it.items) and all(x is not _NOPY for x in xs):
            return interp.new_list([topy(interp, x) for x in sorted(xs)])
    return interp.unknown("sorted", args[0])


def _getattr(interp, args, kwargs):
    n = interp.res(args[1])
    if isinstance(n, Const) and isinstance(n.v, str):
        return interp.getattr(args[0], n.v, args[2] if len(args) > 2 else None)
    return interp.unknown("getattr", tuple(args))


def _hasattr(interp, args, kwargs):
    n = interp.res(args[1])
    if not isinstance(n, Const):
        return interp.unknown("hasattr", tuple(args))

    def one(o):
        mark = Const("<missing>")
        nr = len(interp.raises)
        try:
            v = interp.getattr(o, n.v, mark)
        except Dead:
            # the attribute raises: it does not exist here
            interp.raises[nr:] = []
            return t.FALSE
        if v is mark:
            return t.FALSE
        if isinstance(v, Gate):
            def pres(x):
                x = interp.res(x)
                if isinstance(x, Gate):
                    return t.ite(x.c, pres(x.a), pres(x.b))
                return t.FALSE if x is mark or (isinstance(x, Const) and x.v == "<missing>") else t.TRUE
            return pres(v)
        if isinstance(v, Opq) and v.tag == "?" and v.term.top:
            return t.truth(t.top("hasattr", v.term))
        return t.TRUE
    o = interp.res(args[0])
    if isinstance(o, Gate):
        def rec(g):
            g = interp.res(g)
            return t.ite(g.c, rec(g.a), rec(g.b)) if isinstance(g, Gate) else one(g)
        return interp.boolv(rec(o))
    return interp.boolv(one(o))


def _setattr(interp, args, kwargs):
    n = interp.res(args[1])
    if isinstance(n, Const):
        interp.setattr(args[0], n.v, args[2])
        return NONE
    return interp.unknown("setattr", tuple(args))


def _delattr(interp, args, kwargs):
    o, n = interp.res(args[0]), interp.res(args[1])
    if isinstance(o, Obj) and isinstance(n, Const):
        r = interp.rec(o)
        at = dict(r.attrs)
        at.pop(n.v, None)
        interp.st.heap[o.loc] = ObjRec(r.cls, at, r.payload)
        return NONE
    return interp.unknown("delattr", tuple(args))


def _type(interp, args, kwargs):
    v = interp.res(args[0])
    if isinstance(v, Gate):
        return interp.dist(lambda x: _type(interp, [x], {}), v)
    if isinstance(v, Obj):
        r = interp.rec(v)
        if isinstance(r, ObjRec) and isinstance(r.cls, Cls):
            return r.cls
    n = {Lst: "list", Tup: "tuple", Dct: "dict", SetV: "set", Cls: "type"}.get(type(v))
    if isinstance(v, Const):
        n = type(v.v).__name__
    if isinstance(v, Sc) and v.unit is None and v.kind in ("int", "float", "bool"):
        n = v.kind
    if n in BUILTINS:
        return BUILTINS[n]
    if isinstance(v, Arr):
        return Ext("astropy.units.Quantity" if v.unit is not None else "numpy.ndarray")
    if isinstance(v, Sc):
        return Ext("astropy.units.Quantity" if v.unit is not None else "numpy.float64")
    return interp.unknown("type", v)


def _issubclass(interp, args, kwargs):
    a, b = interp.res(args[0]), interp.res(args[1])
    if isinstance(a, Cls):
        bs = b.items if isinstance(b, Tup) else (b,)
        return Const(any(x in a.mro for x in bs))
    return interp.unknown("issubclass", a, b)


def _isinstance(interp, args, kwargs):
    return interp.boolv(isinst(interp, args[0], args[1]))


def _round(interp, args, kwargs):
    v = MODELS["numpy.round"](interp, list(args), kwargs)
    if isinstance(v, Sc) and len(args) == 1:
        return Sc(v.e, v.unit, "int")
    return v


def _reversed(interp, args, kwargs):
    it = interp.iterate(args[0])
    if it is not None and it.kind == "items":
        return Iter("items", list(it.items)[::-1])
    return interp.unknown("reversed", args[0])


def _next(interp, args, kwargs):
    it = interp.iterate(args[0])
    if it is not None and it.kind == "items":
        if not it.items:
            if len(args) > 1:
                return args[1]
            interp.raise_("StopIteration", "", kind="iter")
        r = args[1] if len(args) > 1 else None
        for x in reversed(it.items):
            if type(x).__name__ == "_Cond":
                if r is None:
                    return interp.unknown("next")
                r = interp.merge(x.c, x.v, r, named=True)
            else:
                r = x
        return r
    return interp.unknown("next", args[0])


def _print(interp, args, kwargs):
    record(interp, "print", args, kwargs)
    return NONE


def _globals(interp, args, kwargs):
    fr = next((f for f in reversed(interp.frames) if f.func is not None and f.func.mod is not None), None)
    mod = fr.func.mod if fr is not None else interp.mod
    return Dct(interp.alloc(DictRec(dict(interp.st.heap[mod.ns].vars))))


def _vars(interp, args, kwargs):
    if args and isinstance(interp.res(args[0]), Obj):
        return AttrDict(interp.res(args[0]).loc)
    return interp.unknown("vars")


def _locals(interp, args, kwargs):
    return Dct(interp.alloc(DictRec(dict(interp.st.heap[interp.frames[-1].scope].vars))))


def _slice(interp, args, kwargs):
    a = list(args)
    if len(a) == 1:
        return SliceV(NONE, a[0], NONE)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else NONE)


def _filter(interp, args, kwargs):
    it = interp.iterate(args[1])
    if it is None or it.kind != "items":
        return interp.unknown("filter")
    from .interp import _Cond
    out = []
    for x in it.items:
        c = interp.truth(x if args[0] is NONE else interp.call(args[0], [x], {}))
        if c is t.TRUE:
            out.append(x)
        elif c is not t.FALSE:
            out.append(_Cond(c, x))
    return Iter("items", out)


def _super(interp, args, kwargs):
    return SuperV(args[0], args[1]) if len(args) == 2 else interp.unknown("super")


def _divmod(interp, args, kwargs):
    return Tup([interp.binop("FloorDiv", *args), interp.binop("Mod", *args)])


def _pow(interp, args, kwargs):
    return interp.binop("Pow", args[0], args[1])


def _open(interp, args, kwargs):
    record(interp, "open", args, kwargs)
    return interp.unknown("open", tuple(args))


def _exc(name):
    def f(interp, args, kwargs):
        return Opq(t.mk("exc", name, tuple(interp.key(a) for a in args)), "exc", name)
    return f


BUILTINS = {}


def builtins():
    if BUILTINS:
        return BUILTINS
    d = {
        "len": lambda i, a, k: py_len(i, a[0]), "range": _range, "enumerate": _enumerate, "zip": _zip,
        "isinstance": _isinstance, "callable": lambda i, a, k: i.boolv(is_callable(i, a[0])),
        "any": _anyall("any"), "all": _anyall("all"), "sum": _sum, "min": _mxmn("min"), "max": _mxmn("max"),
        "abs": _abs, "int": _num_type("i", "int"), "float": _num_type("f", "float"), "bool": _num_type("b", "bool"),
        "str": _str, "list": _list, "tuple": _tuple, "dict": _dict, "set": _set, "frozenset": _set,
        "sorted": _sorted, "map": _map, "filter": _filter, "getattr": _getattr, "setattr": _setattr,
        "hasattr": _hasattr, "delattr": _delattr, "type": _type, "globals": _globals, "vars": _vars,
        "locals": _locals, "issubclass": _issubclass, "round": _round, "reversed": _reversed,
        "iter": lambda i, a, k: i.iterate(a[0]) or i.unknown("iter", a[0]), "next": _next, "slice": _slice,
        "repr": _str, "format": _str, "print": _print, "super": _super, "divmod": _divmod, "pow": _pow,
        "open": _open, "object": lambda i, a, k: Opq(t.mk("object"), "?"),
        "id": lambda i, a, k: i.unknown("id", a[0]), "hash": lambda i, a, k: i.unknown("hash", a[0]),
        "input": lambda i, a, k: i.unknown("input"), "ord": lambda i, a, k: i.unknown("ord"),
        "complex": lambda i, a, k: i.unknown("complex"), "bytes": lambda i, a, k: i.unknown("bytes"),
        "property": lambda i, a, k: Prop(a[0], a[1] if len(a) > 1 else None),
        "classmethod": lambda i, a, k: Static(a[0], "classmethod"),
        "staticmethod": lambda i, a, k: Static(a[0], "staticmethod"),
    }
    for n, f in d.items():
        BUILTINS[n] = Prim(n, f)
    for n in ("Exception", "BaseException", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError",
              "RuntimeError", "NotImplementedError", "FileNotFoundError", "FileExistsError", "OSError", "IOError",
              "AssertionError", "ZeroDivisionError", "ImportError", "ModuleNotFoundError", "StopIteration",
              "ArithmeticError", "LookupError", "PermissionError", "Warning", "UserWarning", "DeprecationWarning",
              "FutureWarning", "RuntimeWarning", "NameError", "OverflowError", "UnicodeDecodeError"):
        BUILTINS[n] = Prim(n, _exc(n))
    BUILTINS["NotImplemented"] = Const("<NotImplemented>")
    BUILTINS["Ellipsis"] = Const(Ellipsis)
    BUILTINS["__name__"] = Const("?")
    BUILTINS["__debug__"] = TRUEV
    return BUILTINS


@model("numpy.unique", "ar")
def _(interp, a):
    """the distinct entries in order: as many as there are first occurrences"""
    x = num(interp, a)
    if not isinstance(x, Arr) or len(x.axes) != 1 or x.axes[0].kind not in ("sym", "n"):
        return interp.unknown("unique", a)
    ax = x.axes[0]
    if ax.kind == "n" and ax.data.op == "num":
        return interp.unknown("unique", a)
    k = arrterm(interp, x)
    sub = t.axis_sub(ax, t.mk("bapp", "first occurrence", (k, t.mk("idx", ax))))
    return interp.mkarr((sub,), t.mk("app", "unique", None, (k, t.mk("idx", ax))), x.unit, interp.dt(x))


# ---------------------------------------------------------------------- functions that write into an argument
def _into(interp, a, where, v):
    a = interp.res(a)
    if not isinstance(a, Arr):
        return NONE
    v = interp.res(v)
    x = v if isinstance(v, (Sc, Arr)) else num(interp, v)
    if isinstance(x, Arr) and all(y is t.ONE for y in x.axes):
        x = Sc(interp.elem(x), x.unit, "np")
    if where is not NONE and where is not TRUEV and not isinstance(x, Sc):
        if isinstance(x, Arr) and x.axes == a.axes:              # entry by entry
            c = interp.res(where)
            x = ew(interp, lambda m, p, q: t.ite(t.truth(m), p, q), [num(interp, c), x, a], unit=x.unit, dt=interp.dt(a))
            where = NONE
        else:
            m.forget(interp, a, where, v)
            return NONE
    m.store(interp, a, SliceV(NONE, NONE, NONE) if where is NONE or where is TRUEV else where, x)
    return NONE


@model("numpy.copyto", "dst,src,casting=None,where=True")
def _(interp, a, v, casting, where):
    return _into(interp, a, where, v)


@model("numpy.putmask", "a,mask,values")
def _(interp, a, where, v):
    return _into(interp, a, where, v)


@model("numpy.place", "arr,mask,vals")
def _(interp, a, where, v):
    x = v if isinstance(v, Sc) else num(interp, v)
    if isinstance(x, Arr) and not all(y is t.ONE for y in x.axes):
        m.forget(interp, a, where, v)
        return NONE
    return _into(interp, a, where, v)


@model("numpy.put", "a,ind,v,mode=None")
def _(interp, a, ind, v, mode):
    if isinstance(a, Arr) and len(a.axes) == 1:
        m.store(interp, a, ind, v)
    elif isinstance(a, Arr):
        m.forget(interp, a, ind, v)
    return NONE


@model("numpy.fill_diagonal numpy.random.shuffle numpy.put_along_axis numpy.add.at numpy.multiply.at", "a,*rest", gates=False, kwok=("b", "k", "indices", "values", "axis", "val", "wrap"))
def _(interp, a, *rest):
    a = interp.res(a)
    if isinstance(a, Arr):
        m.forget(interp, a)
    return NONE
