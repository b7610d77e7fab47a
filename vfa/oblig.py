"""Obligations of one property, their verdicts, the report and the evidence file."""
import json
import os
import traceback
import shutil
import signal
import sys
import tempfile
import time
import warnings
from . import terms as t, units as un
from .values import *
from .interp import Interp, Budget
from .evaluate import Side, compare, all_nodes, Ev, Unk

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("LEGWORK_SRC", "/repo/src")
PKG = os.path.join(SRC, "legwork")


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []
        self.t0 = time.time()
        self.funcs = set()
        self.nodes = 0
        self.steps = 0
        self.sites = 0
        self.unk = {}
        self.findings = []
        self.cur = None
        self.only = None
        self.jobs = int(os.environ.get("VFA_JOBS") or min(8, os.cpu_count() or 1))
        self.live, self.child, self.tmp = {}, False, None
        self.per_ob, self.total = (200, 660) if tier == "quick" else (1800, 10 ** 6)

    # ------------------------------------------------------------ one process per obligation
    def apart(self, name, kind, rule, fn):
        """decide an obligation in a process of its own: nothing it leaves behind reaches the next one"""
        o = {"name": name, "kind": kind, "rule": rule, "status": "undecided", "why": "time"}
        slot = [o]
        self.obs.append(slot)
        if time.time() - self.t0 > self.total:
            return
        while len(self.live) >= self.jobs:
            self.reap()
        self.tmp = self.tmp or tempfile.mkdtemp(prefix="vfa")
        path = os.path.join(self.tmp, str(len(self.obs)))
        sys.stdout.flush()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pid = os.fork()
        if pid:
            self.live[pid] = (slot, path, time.time())
            return
        rc = 1
        try:
            self.child, self.obs = True, []
            self.funcs, self.unk, self.nodes, self.steps = set(), {}, 0, 0
            fn()
            with open(path, "w") as fh:
                json.dump({"obs": self.obs, "funcs": sorted(self.funcs), "unk": self.unk, "nodes": self.nodes,
                           "steps": self.steps}, fh, default=str)
            rc = 0
        finally:
            os._exit(rc)

    def reap(self, block=True):
        """collect finished obligations; end those that are out of time"""
        while True:
            now = time.time()
            for pid, (slot, path, start) in list(self.live.items()):
                done, _ = os.waitpid(pid, os.WNOHANG)
                if not done:
                    if now - start > self.per_ob or now - self.t0 > self.total + 30:
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        del self.live[pid]
                        return
                    continue
                del self.live[pid]
                try:
                    with open(path) as fh:
                        r = json.load(fh)
                    slot[:] = r["obs"]
                    self.funcs |= set(r["funcs"])
                    for k, n in r["unk"].items():
                        self.unk[k] = max(self.unk.get(k, 0), n)
                    self.nodes += r["nodes"]
                    self.steps = max(self.steps, r["steps"])
                    for o in slot:
                        o["seconds"] = round(now - start, 1)
                except (OSError, ValueError):
                    slot[0]["why"] = "analyser: process ended"
                return
            if not self.live:
                return
            time.sleep(0.005)

    def gather(self):
        while self.live:
            self.reap()
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None
        self.obs = [o for x in self.obs for o in (x if isinstance(x, list) else [x])]

    # ------------------------------------------------------------ interpreters
    def new(self, spec=None, **scenario):
        I = Interp(SRC)
        I.scenario = dict(scenario)
        I.load_package()
        if spec:
            for s in ([spec] if isinstance(spec, str) else spec):
                I.load_module("spec_" + s, os.path.join(HERE, "spec", s + ".py"))
        I.ck = self
        return I

    def side(self, I, fn, state=None):
        s0 = I.st.clone()
        if state is not None:
            I.st = state.clone()
        I.files = {}
        I.doubt = None
        n = len(I.raises)
        fr, cs = list(I.frames), list(I.callstack)
        try:
            try:
                v = fn()
            except Dead:
                v = None
            return Side(I, v, I.raises[n:])
        finally:
            I.st = s0
            I.frames[:], I.callstack[:] = fr, cs

    def _guard(self, o, fn):
        try:
            return fn()
        except Budget:
            o["status"], o["why"] = "undecided", "analysis budget"
        except RecursionError:
            o["status"], o["why"] = "undecided", "recursion depth"
        except KeyError as e:
            o["status"], o["why"] = "undecided", "name not found: %s" % e
        except AttributeError as e:
            o["status"], o["why"] = "undecided", "analyser: %r" % e
        except Exception as e:               # an analyser fault is never a finding
            if os.environ.get("VFA_TRACE"):
                traceback.print_exc()
            o["status"], o["why"] = "undecided", "analyser: %s %s" % (type(e).__name__, str(e)[:160])
        return None

    # ------------------------------------------------------------ obligations
    def ob(self, name, I, impl, ref, assume=(), raises="full", rule="", values=True, trials=None, nbound=None,
           state=None, alike=()):
        """the value-flow summary of impl() must agree with that of ref().
        alike: pairs (function, its specification, stand-in) decided equal by another property; when the two summaries
        can be neither shown equal nor told apart, they are taken again with the same stand-in for both"""
        if self.only and self.only not in name:
            return None
        if not self.child and self.jobs > 1:
            return self.apart(name, "equivalence", rule, lambda: self.ob(
                name, I, impl, ref, assume, raises, rule, values, trials, nbound, state, alike))
        o = {"name": name, "kind": "equivalence", "rule": rule, "status": "undecided"}
        self.obs.append(o)

        def go():
            a = self.side(I, impl, state)
            b = self.side(I, ref, state)
            self.verdict(o, I, a, b, assume, raises, values, trials, nbound)
            if alike and o["status"] == "not separated":
                self.compose(o, I, impl, ref, assume, raises, values, state, alike)
            return a
        r = self._guard(o, go)
        self.account(I)
        return r

    def compose(self, o, I, impl, ref, assume, raises, values, state, alike):
        keep = dict(I.stubs)
        try:
            for f, g, stand in alike:
                I.stubs[f] = I.stubs[g] = stand
            a, b = self.side(I, impl, state), self.side(I, ref, state)
            v = compare(a, b, assume, self.seed, 0, 0, raises, values)
            if v.equal:
                o["status"] = "discharged"
                o["how"] = "with " + ", ".join(f for f, g, s in alike) + " replaced by unknown functions, which other " \
                           "properties show to be equal to their specification"
        finally:
            I.stubs.clear()
            I.stubs.update(keep)

    def verdict(self, o, I, a, b, assume=(), raises="full", values=True, trials=None, nbound=None):
        deep = self.tier == "thorough"
        v = compare(a, b, assume, self.seed, (trials or 14) * (4 if deep else 1),
                    (nbound or 60) * (6 if deep else 1), raises, values)
        ns = all_nodes(a.terms())
        self.nodes += len(ns)
        o["graph_nodes"] = len(ns)
        if v.equal:
            o["status"] = "discharged"
            return
        o["assignments"] = v.trials
        if v.diff is None:
            o["status"] = "not separated" if v.agree else "undecided"
            o["agreeing"] = v.agree
            if v.why:
                o["why"] = ", ".join("%s (%d)" % p for p in sorted(v.why.items(), key=lambda p: -p[1])[:4])
            return
        o["status"] = "violated"
        kind, path = v.diff[0], v.diff[1]
        o["difference"] = {"what": kind, "at": str(path), "analysed": _short(v.diff[-3] if kind == "error"
                           else v.diff[-4]), "required": _short(v.diff[-3]), "assignment": v.diff[-1]}
        if kind in ("error", "exception"):
            o["difference"] = {"what": kind, "analysed": v.diff[1] or "returns a value",
                               "required": v.diff[2] or "returns a value", "assignment": v.diff[-1]}
        o["where"] = self.blame(a, b, v)

    def blame(self, a, b, v):
        """source positions of the value-flow nodes that the required graph does not have"""
        nb = all_nodes(b.terms())
        locs = {}
        r = v.diff[3] if v.diff[0] in ("error", "exception") else None
        if r is not None and r.loc and _inpkg(r.loc):
            locs[_loc(r.loc)] = 10 ** 6
        for i, x in all_nodes(a.terms()).items():
            if i not in nb and x.loc and _inpkg(x.loc):
                k = _loc(x.loc)
                locs[k] = locs.get(k, 0) + 1
        if not locs:
            for i, x in all_nodes(a.terms()).items():
                if x.loc and _inpkg(x.loc):
                    k = _loc(x.loc)
                    locs[k] = locs.get(k, 0) + 1
        return [k for k, _ in sorted(locs.items(), key=lambda p: -p[1])[:8]]

    def rule(self, name, ok, message="", where=(), rule="", kind="rule", **detail):
        """a structural obligation: ok True / False / None (could not be decided)"""
        if self.only and self.only not in name:
            return
        o = {"name": name, "kind": kind, "rule": rule,
             "status": "discharged" if ok is True else "violated" if ok is False else "undecided"}
        if ok is not True and message:
            o["why" if ok is None else "difference"] = message
        if where:
            o["where"] = [w if isinstance(w, str) else _loc(w) for w in where]
        o.update(detail)
        self.obs.append(o)

    def guarded(self, name, fn, rule=""):
        """run fn(); a fault of the analyser leaves the obligation undecided"""
        if self.only and self.only not in name:
            return
        if not self.child and self.jobs > 1:
            return self.apart(name, "rule", rule, lambda: self.guarded(name, fn, rule))
        o = {"name": name, "kind": "rule", "rule": rule, "status": "undecided"}
        self._guard(o, fn)
        if o.get("why"):
            self.obs.append(o)

    def account(self, I):
        self.funcs |= I.calls
        for k, n in I.unknowns.items():
            self.unk[k] = max(self.unk.get(k, 0), n)
        self.steps = max(self.steps, I.steps)

    # ------------------------------------------------------------ report
    def finish(self, technique):
        self.gather()
        known = load_known()
        viol, seen = [], 0
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        for o in self.obs:
            if o["status"] == "violated":
                k = match_known(known, self.pid, o)
                if k:
                    o["status"] = "known finding"
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                else:
                    viol.append(o)
        cnt = {}
        for o in self.obs:
            cnt[o["status"]] = cnt.get(o["status"], 0) + 1
        for i, o in enumerate(viol):
            p = os.path.join(HERE, "evidence", "replay", "%s-%d.json" % (self.pid, i))
            with open(p, "w") as fh:
                json.dump(dict(o, property=self.pid, command="python3 check.py %s --only %r" % (self.pid, o["name"])),
                          fh, indent=1, default=str)
            if i < 12:
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
                print("  obligation: %s" % o["name"])
                print("  at: %s" % ", ".join(o.get("where", ())[:5]))
                print("  %s" % json.dumps(o.get("difference"), default=str)[:700])
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
              "coverage": {
                  "explanation": technique,
                  "obligations": len(self.obs), "discharged": cnt.get("discharged", 0),
                  "not_separated": cnt.get("not separated", 0), "undecided": cnt.get("undecided", 0),
                  "violated": len(viol), "known_findings": cnt.get("known finding", 0),
                  "functions_analysed": sorted(self.funcs),
                  "value_flow_nodes": self.nodes, "abstract_steps": self.steps,
                  "uninterpreted_constructs": self.unk,
                  "obligation_list": [{k: v for k, v in o.items()} for o in self.obs]},
              "wall_s": round(time.time() - self.t0, 3)}
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        print("%s: %d obligations: %s (%.1f s)" % (self.pid, len(self.obs), ", ".join(
            "%d %s" % (n, s) for s, n in sorted(cnt.items())), time.time() - self.t0))
        return 1 if viol else 0


def _inpkg(loc):
    return loc[0] and str(loc[0]).startswith(PKG)


def _loc(l):
    f = str(l[0])
    if f.startswith(SRC):
        f = "src" + f[len(SRC):]
    return "%s:%s %s" % (f, l[1], l[2] if len(l) > 2 else "")


def _short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return json.load(fh)["findings"]


def match_known(known, pid, o):
    """a finding is identified by the property, the obligation and the construct it blames"""
    for k in known:
        if k.get("status") == "known" and k["property"] == pid and k["obligation"] == o["name"]:
            fn = k.get("function")
            if not fn or any(w.split(" ")[-1] == fn for w in o.get("where", ())):
                d = json.dumps(o.get("difference"), default=str)
                if all(s in d for s in k.get("contains", ())):
                    return k
    return None


# ------------------------------------------------------------------ symbolic inputs
AX = {n: t.axis_sym(n) for n in ("N", "M", "K", "H")}
N, M, K, H = AX["N"], AX["M"], AX["K"], AX["H"]

# unit, range values are drawn from, and how far beyond it thresholds are looked for
RANGES = {"mass": ("Msun", (1e29, 5e31, 1e28, 1e36)), "f": ("Hz", (1e-5, 1e-1, 1e-9, 1e3)),
          "a": ("AU", (1e7, 1e11, 1e5, 1e14)), "dist": ("kpc", (1e18, 1e22, 1e15, 1e27)),
          "ecc": (None, (0, 0.95, 0, 0.999999)), "eccp": (None, (0.01, 0.95, 1e-6, 0.999999)),
          "time": ("yr", (1e4, 1e10, 1, 1e17)), "angle": ("rad", (0.1, 3.0)),
          "beta": ("m^4/s", (1e15, 1e25, 1e12, 1e30)),
          "snr": (None, (0.5, 50.0, 1e-3, 1e6)), "weight": (None, (0.1, 3.0, 1e-3, 1e4))}


def unit(name):
    if name is None:
        return None
    if name == "m^4/s":
        return un.TABLE["m"] ** 4 / un.TABLE["s"]
    if name == "1/Hz":
        return un.TABLE["Hz"] ** -1
    if name == "Hz/yr":
        return un.TABLE["Hz"] / un.TABLE["yr"]
    return un.TABLE[name]


def q(I, name, kind, axes=(N,), dom=None, u="default", sgn=None):
    """a symbolic quantity of a physical kind"""
    un_, d = RANGES[kind]
    if u != "default":
        un_ = u
    d = dom or d
    sg = sgn or ("p" if d[0] > 0 else "nn" if d[0] == 0 else None)
    s = t.sym(name, tuple(x for a in axes for x in t.base_axes(a)), sgn=sg, dom=d)
    return I.mkarr(axes, s, unit(un_))


def scal(I, name, kind, dom=None, u="default"):
    un_, d = RANGES[kind]
    if u != "default":
        un_ = u
    d = dom or d
    sg = "p" if d[0] > 0 else "nn" if d[0] == 0 else None
    return Sc(t.sym(name, (), sgn=sg, dom=d), un_ if isinstance(un_, un.Unit) else unit(un_), "float")


def ints(I, name, axes=(H,), dom=(1, 6)):
    s = t.sym(name, tuple(x for a in axes for x in t.base_axes(a)), sgn="p" if dom[0] > 0 else None, dom=dom,
              isint=True)
    return I.mkarr(axes, s, None, "i")


def integer(name, dom=(1, 6)):
    return Sc(t.sym(name, (), sgn="p" if dom[0] > 0 else None, dom=dom, isint=True), None, "int")


def flag(name):
    return Sc(t.sym(name, (), isbool=True), None, "bool")


def py(I, v):
    return I.npm.topy(I, v)


def fl(v):
    return Sc(t.num(v), None, "float")


def callm(I, name, *args, **kw):
    """the analysed call module.func(*args, **kw)"""
    f = I.get(name)
    if f is None:
        raise KeyError(name)
    return I.call(f, list(args), kw)


def sky(I, axes=(N,), tag=""):
    """a symbolic sky position in ecliptic coordinates"""
    mk = (lambda n, k, d: q(I, n, k, axes, dom=d)) if axes else (lambda n, k, d: scal(I, n, k, dom=d))
    lon, lat = mk("lon" + tag, "angle", (0.1, 6.2)), mk("lat" + tag, "angle", (-1.4, 1.4))
    return I.call(I.models["astropy.coordinates.SkyCoord"], [], dict(lon=lon, lat=lat,
                                                                    frame=Const("heliocentrictrueecliptic"))) \
        if not callable(I.models["astropy.coordinates.SkyCoord"]) else \
        I.models["astropy.coordinates.SkyCoord"](I, [], dict(lon=lon, lat=lat,
                                                             frame=Const("heliocentrictrueecliptic")))


def ufun(I, name, sign=None):
    """an opaque elementwise callable of any number of broadcastable arguments"""
    from . import extmodel

    def info(interp, args, kwargs):
        return extmodel.ew(interp, lambda *es: t.app(name, *[t._bool2num(e) for e in es], sign=sign),
                           list(args) + list(kwargs.values()))
    return Opq(t.sym("callable:" + name, ()), "callable", info)
