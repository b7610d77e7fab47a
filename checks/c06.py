"""C06: circular evolution."""
from itertools import permutations
from vfa.oblig import *

TECHNIQUE = ("value-flow graphs of evol_circ, check_mass_freq_input and create_timesteps_array over sources x steps, "
             "for every way of supplying inputs and every output, compared with Peters Eq. 5.9")

OUT = ["timesteps", "a", "f_orb", "f_GW"]


def times(I, how, ax):
    if how == "merger time":
        return {}
    if how == "one t_evol":
        return dict(t_evol=scal(I, "t_evol", "time"), n_step=integer("n_step", (2, 6)))
    if how == "t_evol per source":
        return dict(t_evol=q(I, "t_evol", "time", (N,) if ax else (t.ONE,)), n_step=integer("n_step", (2, 6)))
    if how == "common timesteps":
        return dict(timesteps=q(I, "ts", "time", (K,), dom=(0, 1e10)))
    if how == "timesteps per source":
        return dict(timesteps=q(I, "ts", "time", ((N,) if ax else (t.ONE,)) + (K,), dom=(0, 1e10)))
    if how == "both":
        return dict(timesteps=q(I, "ts", "time", (K,), dom=(0, 1e10)), t_evol=scal(I, "t_evol", "time"))


def bodies(I, how, ax):
    mk = (lambda *a, **k: q(*a, axes=ax, **k)) if ax else scal
    kw = {}
    if "beta" in how:
        kw["beta"] = mk(I, "beta", "beta")
    if "a_i" in how:
        kw["a_i"] = mk(I, "a_i", "a")
    if "m" in how:
        kw.update(m_1=mk(I, "m_1", "mass"), m_2=mk(I, "m_2", "mass"))
    if "f" in how:
        kw["f_orb_i"] = mk(I, "f_orb_i", "f")
    return kw


def run(ck):
    for tag, ax in (("arrays", (N,)), ("one source", ())):
        for how in ("merger time", "one t_evol", "t_evol per source", "common timesteps", "timesteps per source",
                    "both"):
            for b in (("m", "f"), ("beta", "a_i"), ("m", "a_i"), ("beta", "a_i", "m", "f")):
                I = ck.new(["utils", "evol"])
                kw = dict(bodies(I, b, ax), **times(I, how, ax))
                out = OUT if "m" in b else ["timesteps", "a"]
                kw["output_vars"] = py(I, out)
                ck.ob("evolution from %s, %s, %s" % ("+".join(b), how, tag), I, lambda: callm(I, "evol.evol_circ", **kw),
                      lambda: callm(I, "spec_evol.evol_circ", **kw))
        for out in (None, "a", "timesteps", "f_GW", ["f_GW", "a"], ["a", "f_orb", "timesteps"], ["f_orb"], ["f_GW", "f_GW"],
                    *map(list, permutations(OUT))):
            I = ck.new(["utils", "evol"])
            kw = dict(bodies(I, ("m", "f"), ax), **times(I, "one t_evol", ax))
            if out is not None:
                kw["output_vars"] = py(I, out)
            ck.ob("output selection %r, %s" % (out, tag), I, lambda: callm(I, "evol.evol_circ", **kw),
                  lambda: callm(I, "spec_evol.evol_circ", **kw))
        for b in (("a_i",), ("m",), ("beta", "f"), ("beta",), ("f",), (), ("beta", "a_i")):
            I = ck.new(["utils", "evol"])
            kw = dict(bodies(I, b, ax), **times(I, "one t_evol", ax))
            ck.ob("incomplete input %s is rejected, %s" % ("+".join(b) or "nothing", tag), I,
                  lambda: callm(I, "evol.evol_circ", **kw), lambda: callm(I, "spec_evol.evol_circ", **kw))
            kw = bodies(I, b, ax)
            ck.ob("check_mass_freq_input with %s, %s" % ("+".join(b) or "nothing", tag), I,
                  lambda: callm(I, "evol.check_mass_freq_input", **kw),
                  lambda: callm(I, "spec_evol.inputs", kw.get("beta", NONE), kw.get("m_1", NONE), kw.get("m_2", NONE),
                                kw.get("a_i", NONE), kw.get("f_orb_i", NONE)))
