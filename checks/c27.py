"""C27: the number of worker processes does not change results."""
from vfa.oblig import *
from checks.srcs import make, meth, mask
from checks.c12 import SPECS as S0, body, ways, with_settings, SET
from checks.c06 import times, bodies
from checks.c07 import ECC, OUT
import ast

TECHNIQUE = ("value-flow graphs of the same call with one and with several worker processes compared with each other (work handed to a "
             "pool is followed item by item, and comes back in the order of the pool's contract); escape analysis of every function and "
             "value sent to a worker, which must be reachable by name from a module or be plain data; provenance of the pool's size")
SPECS = S0 + ["source"]


def local(I, v, seen=None):
    """a function a worker process cannot be told about, reachable from v, or None"""
    v = I.res(v)
    seen = set() if seen is None else seen
    if id(v) in seen:
        return None
    seen.add(id(v))
    if isinstance(v, Func):
        return v if v.scope is not None or isinstance(v.node, ast.Lambda) else None
    if isinstance(v, Gate):
        return local(I, v.a, seen) or local(I, v.b, seen)
    if isinstance(v, Bound):
        return local(I, v.self, seen)
    if isinstance(v, Prim) and v.data is not None:
        return local(I, v.data, seen)
    if isinstance(v, (Tup, Lst)):
        its = v.items if isinstance(v, Tup) else I.iter_list(v)
        for x in its or ():
            w = local(I, x, seen)
            if w is not None:
                return w
    if isinstance(v, Dct) and isinstance(I.rec(v), DictRec):
        for x in I.rec(v).d.values():
            w = local(I, getattr(x, "v", x), seen)
            if w is not None:
                return w
    if isinstance(v, Obj) and isinstance(I.rec(v), ObjRec) and isinstance(I.rec(v).cls, Cls):
        for x in I.rec(v).attrs.values():
            w = local(I, x, seen)
            if w is not None:
                return w
    return None


def pooled(I, fn, n_proc, need=True):
    """(result, everything sent can be sent, there is a pool and its size comes from the number asked for)"""
    n = len(I.events)
    r = fn()
    sent = size = t.TRUE
    used = not need
    for e in I.events[n:]:
        if e.name == "pool.send" and any(local(I, x) is not None for x in e.args):
            sent = t.and_(sent, t.not_(e.pc))
        if e.name == "pool":
            k = I.res(e.args[0])
            used = True
            told = isinstance(k, Sc) and (n_proc.e in t.nodes(k.e).values() or n_proc.e.op == "num")
            size = t.and_(size, t.or_(t.not_(e.pc), t.TRUE if told else t.FALSE))
    if not used:
        size = t.FALSE
    b = lambda c: Sc(c, None, "bool")
    return Tup([r, b(sent), b(size)])


def expected(fn):
    return Tup([fn(), TRUEV, TRUEV])


def both(ck, name, I, call, several, need=True):
    ck.ob(name, I, lambda: pooled(I, lambda: call(several), several, need), lambda: expected(lambda: call(py(I, 1))))


def run(ck):
    for tag, ax in (("arrays", (N,)), ("one source", ())):
        for how in ("merger time", "one t_evol", "t_evol per source", "common timesteps", "timesteps per source"):
            for avoid in (True, False):
                for b in (("m", "f"), ("beta", "a_i")):
                    for out in ((OUT, ["f_orb"]) if b == ("m", "f") else (["timesteps", "ecc", "a"], ["ecc"])):
                        I = ck.new(SPECS)
                        kw = dict(bodies(I, b, ax), **times(I, how, ax))
                        kw["ecc_i"] = q(I, "ecc_i", "ecc", axes=ax, **ECC) if ax else scal(I, "ecc_i", "ecc", **ECC)
                        kw.update(output_vars=py(I, out), avoid_merger=py(I, avoid))
                        both(ck, "evol_ecc from %s, %s, %s, merger %savoided, %s" % ("+".join(b), how, tag, "" if avoid else "not ", out), I,
                             lambda n: callm(I, "evol.evol_ecc", n_proc=n, **kw), integer("n_proc", (2, 8)))
    I = ck.new(SPECS)
    kw = dict(bodies(I, ("m", "f"), (N,)), **times(I, "one t_evol", (N,)))
    kw.update(ecc_i=q(I, "ecc_i", "ecc", **ECC), avoid_merger=flag("avoid"), exact_t_merge=flag("exact"),
              t_merge=q(I, "t_merge", "time"), t_before=scal(I, "t_before", "time", dom=(1e4, 1e8)))
    both(ck, "evol_ecc with merger times, margin and options of the caller", I,
         lambda n: callm(I, "evol.evol_ecc", n_proc=n, **kw), integer("n_proc", (1, 8)))
    for how in ("", "g", "sc", "g sc"):
        for st in (SET[:5] if "sc" not in how else SET[:1]):
            for opt in ((False, False), (True, False), (False, True), (True, True)) if st is SET[0] else ((True, False),):
                for tm in (True, False):
                    I = ck.new(SPECS)
                    kw = dict(body(I, True, True), **ways(I, how), **with_settings(I, st))
                    if tm:
                        kw["t_merge"] = q(I, "t_merge", "time")
                    kw.update(ret_max_snr_harmonic=py(I, opt[0]), ret_snr2_by_harmonic=py(I, opt[1]))
                    both(ck, "snr_ecc_evolving, interpolated %s, settings %s, strongest harmonic %s, by harmonic %s, merger time %s" % (
                        how or "nothing", st, opt[0], opt[1], "given" if tm else "computed"), I,
                        lambda n: callm(I, "snr.snr_ecc_evolving", n_proc=n, **kw), integer("n_proc", (2, 8)))
    collections(ck)


def asked(I):
    """stands for the eccentric evolving signal-to-noise: unknown for each source, and told a number of processes"""
    from checks.c14 import snr_like
    like = snr_like("ecc_evolving")

    def stand(J, f, args, kwargs):
        J.npm.record(J, "pool", [J.bind(f, args, kwargs)["n_proc"]], {})
        return like(J, f, args, kwargs)
    return stand


def collections(ck):
    from checks.c14 import snr_like, stationary
    for cls, name in (("source.Source", "get_snr"), ("source.Source", "get_snr_evolving"), ("source.Evolving", "get_snr")):
        for known in (False, True):
            for sel in (False, True):
                if sel and cls != "source.Source":
                    continue
                I = ck.new(SPECS)
                I.stubs["legwork.evol.determine_stationarity"] = stationary
                for n in ("circ_stationary", "ecc_stationary", "circ_evolving"):
                    I.stubs["legwork.snr.snr_" + n] = snr_like(n)
                I.stubs["legwork.snr.snr_ecc_evolving"] = asked(I)
                kw = dict(n_step=integer("n_step", (2, 5)))
                if sel:
                    kw["which_sources"] = mask(I)

                def call(n):
                    o = make(I, cls, merged=True, t_merge=known, ecc="any", over=dict(n_proc=n))
                    return Tup([meth(I, o, name, **kw), I.getattr(o, "snr"), I.getattr(o, "max_snr_harmonic")])
                ck.ob("%s.%s%s%s" % (cls.split(".")[1], name, ", merger times known" if known else "", ", selection" if sel else ""), I,
                      lambda: pooled(I, lambda: call(integer("n_proc", (2, 8))), integer("n_proc", (2, 8))),
                      lambda: expected(lambda: call(py(I, 1))))
    for new in (False, True):
        for which in ("one", "each"):
            I = ck.new(SPECS)

            def call(n):
                o = make(I, merged=True, t_merge=True, ecc="any", over=dict(n_proc=n))
                t_evol = scal(I, "t_evol", "time") if which == "one" else q(I, "t_evol", "time")
                r = meth(I, o, "evolve_sources", t_evol, create_new_class=py(I, new))
                s = r if new else o
                return Tup([I.getattr(s, x) for x in ("ecc", "f_orb", "merged", "t_merge")])
            both(ck, "evolve_sources, %s time, %s" % (which, "new collection" if new else "in place"), I, call, integer("n_proc", (2, 8)), need=False)
    # what a collection's workers are sent when it interpolates g and its curve itself
    for g in (False, True):
        for sc in (False, True):
            I = ck.new(SPECS)

            def call(n):
                o = make(I, "source.Evolving", ecc="any", over=dict(n_proc=n, interpolate_g=py(I, g), interpolate_sc=py(I, sc)))
                return meth(I, o, "get_snr")
            k = py(I, 3)
            ck.ob("workers of a collection, interpolated g %s, curve %s" % (g, sc), I,
                  lambda: Tup([pooled(I, lambda: call(k), k).items[1]]), lambda: Tup([TRUEV]))
