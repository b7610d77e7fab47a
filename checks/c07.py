"""C07: eccentric evolution."""
from itertools import permutations
from vfa.oblig import *
from checks.c06 import times, bodies

TECHNIQUE = ("value-flow graphs of evol_ecc (the integrator as a functional of the right-hand side's graph, initial "
             "value and times) over sources x steps for every way of supplying inputs, outputs and merger handling, "
             "compared with Peters Eq. 5.13 and the freeze rule")

OUT = ["timesteps", "ecc", "a", "f_orb", "f_GW"]
ECC = dict(dom=(0.01, 0.94))


def run(ck):
    E, S = "evol.evol_ecc", "spec_evol.evol_ecc"

    def ecc(I, ax):
        return q(I, "ecc_i", "ecc", axes=ax, **ECC) if ax else scal(I, "ecc_i", "ecc", **ECC)

    def pair(name, I, kw):
        ck.ob(name, I, lambda: callm(I, E, **kw), lambda: callm(I, S, **kw))
    I = ck.new(["utils", "evol"])
    kw = dict(e=scal(I, "e", "ecc", **ECC), times=fl(0), beta=scal(I, "beta", "beta", u=None), c_0=scal(I, "c_0", "a", u=None))
    ck.ob("right-hand side of the eccentricity equation", I,
          lambda: callm(I, "evol.de_dt", kw["e"], kw["times"], kw["beta"], kw["c_0"]),
          lambda: callm(I, "spec_evol.de_dt", kw["e"], kw["times"], kw["beta"], kw["c_0"]))
    for tag, ax in (("arrays", (N,)), ("one source", ())):
        for how in ("merger time", "one t_evol", "t_evol per source", "common timesteps", "timesteps per source",
                    "both"):
            for b in (("m", "f"), ("beta", "a_i"), ("m", "a_i"), ("beta", "a_i", "m", "f")):
                I = ck.new(["utils", "evol"])
                kw = dict(bodies(I, b, ax), **times(I, how, ax))
                kw["ecc_i"] = ecc(I, ax)
                kw["output_vars"] = py(I, OUT if "m" in b else ["timesteps", "ecc", "a"])
                kw["avoid_merger"] = FALSEV
                pair("evolution from %s, %s, %s, merger not avoided" % ("+".join(b), how, tag), I, kw)
        for how in ("merger time", "one t_evol", "t_evol per source", "common timesteps", "timesteps per source"):
            for given in (True, False):
                I = ck.new(["utils", "evol"])
                kw = dict(bodies(I, ("m", "f"), ax), **times(I, how, ax))
                kw["ecc_i"] = ecc(I, ax)
                if given:
                    kw["t_merge"] = q(I, "t_merge", "time", (N,) if ax else (t.ONE,))
                kw["output_vars"] = py(I, OUT)
                pair("near-merger freeze, merger time %s, %s, %s" % ("given" if given else "computed", how, tag), I, kw)
        for out in (None, "a", "timesteps", "f_GW", "ecc", ["f_GW", "a"], ["a", "f_orb", "timesteps"], ["f_orb"], ["f_GW", "f_GW"],
                    *map(list, permutations(OUT, 3))):
            I = ck.new(["utils", "evol"])
            kw = dict(bodies(I, ("m", "f"), ax), **times(I, "one t_evol", ax))
            kw["ecc_i"] = ecc(I, ax)
            kw["avoid_merger"] = FALSEV
            if out is not None:
                kw["output_vars"] = py(I, out)
            pair("output selection %r, %s" % (out, tag), I, kw)
        for b in (("a_i",), ("m",), ("beta", "f"), ("beta",), ("f",), (), ("beta", "a_i")):
            I = ck.new(["utils", "evol"])
            kw = dict(bodies(I, b, ax), **times(I, "one t_evol", ax))
            kw["ecc_i"] = ecc(I, ax)
            pair("incomplete input %s is rejected, %s" % ("+".join(b) or "nothing", tag), I, kw)
        I = ck.new(["utils", "evol"])
        kw = dict(bodies(I, ("m", "f"), ax), **times(I, "one t_evol", ax))
        kw.update(ecc_i=ecc(I, ax), exact_t_merge=flag("exact"), t_before=scal(I, "t_before", "time", dom=(1e4, 1e8)))
        pair("caller's t_before and merger-time method, %s" % tag, I, kw)
        I = ck.new(["utils", "evol"])
        kw = dict(bodies(I, ("m", "f"), ax), **times(I, "one t_evol", ax))
        kw.update(ecc_i=ecc(I, ax), avoid_merger=flag("avoid"), output_vars=py(I, OUT),
                  t_merge=q(I, "t_merge", "time", (N,) if ax else (t.ONE,)))
        pair("avoid_merger either way, %s" % tag, I, kw)
        # several workers give what one gives
        for how in ("one t_evol", "timesteps per source"):
            I = ck.new(["utils", "evol"])
            kw = dict(bodies(I, ("m", "f"), ax), **times(I, how, ax))
            kw.update(ecc_i=ecc(I, ax), output_vars=py(I, OUT))
            ck.ob("several workers agree with one, %s, %s" % (how, tag), I,
                  lambda: callm(I, E, n_proc=integer("n_proc", (2, 8)), **kw), lambda: callm(I, S, **kw))
