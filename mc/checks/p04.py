"""P04: materials with property models.

Every subset of the seven properties as models of a material, every shipped material on a
temperature grid: a property is what its model gives for the state passed, alpha and nu follow from
the others when they have no model, a property without model is refused; histories of evaluations.
"""
import itertools
from mc import core, physmodels

PROPS = ("alpha", "beta", "Cp", "k", "mu", "nu", "rho")


class Probe:
    """A stand-in model that records what it was given."""

    def __init__(self, v):
        self.v, self.calls = v, []

    def __call__(self, **state):
        self.calls.append(dict(state))
        return self.v * (1.0 + 1e-3 * state.get("T", 0.0)) * (1.0 + state.get("P", 0.0))


STATES = ({"T": 300.0}, {"T": 800.0, "P": 2.0}, {"P": 0.5}, {})
VAL = dict(alpha=0.31, beta=0.7, Cp=1100.0, k=0.25, mu=2e-5, nu=1.7e-5, rho=3.5)


def subsets(sub, item):
    from auxi.modelling.process.materials.core import Material
    from auxi.tools.materialphysicalproperties.core import StateOfMatter
    for state, sm in itertools.product(STATES, (StateOfMatter.gas, StateOfMatter.unknown)):
        for n in range(len(PROPS) + 1):
            for have in itertools.combinations(PROPS, n):
                if (PROPS.index(have[0]) if have else 0) != item:
                    continue
                case = dict(models=list(have), state=state)
                with sub.guard("subset", case):
                    models = {p: Probe(VAL[p]) for p in have}
                    other = Material("other", sm, {p: Probe(99.0 + i) for i, p in enumerate(PROPS)})
                    keep = dict(models)
                    m = Material("M", sm, models, "the description")
                    sub.expect(m.name == "M" and m.description == "the description" and m.mstate is sm, "attributes", repr((m.name, m.description, m.mstate)), case)
                    f = (1.0 + 1e-3 * state.get("T", 0.0)) * (1.0 + state.get("P", 0.0))
                    want = {p: VAL[p] * f for p in have}
                    if "alpha" not in want and all(p in want for p in ("k", "rho", "Cp")):
                        want["alpha"] = want["k"] / (want["rho"] * want["Cp"])
                    if "nu" not in want and all(p in want for p in ("mu", "rho")):
                        want["nu"] = want["mu"] / want["rho"]
                    for p in PROPS + PROPS[::-1]:
                        sub.step()
                        try:
                            v = getattr(m, p)(**state)
                        except Exception as e:
                            sub.expect(p not in want, "missing/" + p, "%s of a material with models %r raises %r" % (p, have, e), case)
                            sub.outcome("refused")
                            continue
                        sub.expect(p in want and core.close(v, want[p], 1e-12, 0), "value/" + p, "%s = %r, expected %r" % (p, v, want.get(p)), case)
                        sub.outcome("value")
                    for p in have:
                        sub.expect(all(c == state for c in models[p].calls), "state/" + p, "model got %r" % models[p].calls[:2], case)
                    sub.expect(models == keep, "models-dict", "changed", case)
                    for i, p in enumerate(PROPS):
                        sub.expect(core.close(getattr(other, p)(), 99.0 + i), "other", "another material changed", case)
                sub.state((have, repr(state), sm.value))
                sub.trace(case)


def pairs(sub, item):
    """Every history of (property, state) evaluations on one material: each answer is that of its own
    state, whatever was asked before."""
    from auxi.modelling.process.materials.core import Material
    from auxi.tools.materialphysicalproperties.core import StateOfMatter
    first, depth = item
    states = ({"T": 300.0, "P": 1.0}, {"T": 300.0, "P": 2.0}, {"T": 450.0, "P": 1.0})
    for have in (PROPS, ("Cp", "k", "mu", "rho", "beta")):
        ops = [(p, i) for p in PROPS for i in range(len(states))]
        for h in itertools.product(ops, repeat=depth - 1):
            h = (ops[first],) + h
            case = dict(models=list(have), history=[[p, states[i]] for p, i in h])
            with sub.guard("pairs", case):
                m = Material("M", StateOfMatter.gas, {p: Probe(VAL[p] * (1 + n)) for n, p in enumerate(have)}, "d")
                for p, i in h:
                    sub.step()
                    f = (1.0 + 1e-3 * states[i]["T"]) * (1.0 + states[i]["P"])
                    v = {q: VAL[q] * (1 + n) * f for n, q in enumerate(have)}
                    v.setdefault("alpha", v["k"] / (v["rho"] * v["Cp"]))
                    v.setdefault("nu", v["mu"] / v["rho"])
                    got = getattr(m, p)(**states[i])
                    sub.expect(core.close(got, v[p], 1e-12, 0), "history/" + p, "%s at %r gives %r, expected %r" % (p, states[i], got, v[p]), case)
            sub.trace(case)
            sub.state((have, h))


def real_pairs(sub, item):
    """The same with shipped property models whose value depends on the pressure or the composition."""
    from auxi.modelling.process.materials.core import Material
    from auxi.tools.materialphysicalproperties import idealgas, gases
    from auxi.tools.materialphysicalproperties.core import StateOfMatter
    kind, depth = item
    if kind == "TP":
        states = [dict(T=T, P=P) for T in (300.0, 600.0) for P in (1e5, 3e5)]
        models = lambda: dict(rho=idealgas.RhoTP(28.0), mu=Probe(2e-5), Cp=Probe(900.0), k=Probe(0.03))
    else:
        states = [dict(T=T, x=x) for T in (300.0, 600.0) for x in ({"N2": 1.0}, {"CO2": 0.5, "N2": 0.5})]
        models = lambda: dict(rho=Probe(1.5), mu=gases.WilkeMuTx(), Cp=gases.IdealCpTx(), k=Probe(0.03))
    def new():
        return Material("M", StateOfMatter.gas, models(), "d")
    def ask(m, p, s):
        return getattr(m, p)(**{k: dict(v) if isinstance(v, dict) else v for k, v in s.items()})
    props = ("nu", "alpha", "rho", "mu", "Cp")
    ref = {(p, i): ask(new(), p, s) for p in props for i, s in enumerate(states)}
    for i, s in enumerate(states):
        sub.eq(ref["nu", i], ref["mu", i] / ref["rho", i], "real/nu", dict(state=s))
    for h in itertools.product(itertools.product(props, range(len(states))), repeat=depth):
        case = dict(models=kind, history=[[p, states[i]] for p, i in h])
        with sub.guard("real-pairs", case):
            m = new()
            for p, i in h:
                sub.step()
                got = ask(m, p, states[i])
                sub.expect(core.close(got, ref[p, i], 1e-12, 0), "real/" + p, "%s gives %r, a fresh material %r" % (p, got, ref[p, i]), case)
        sub.trace(case)
        sub.state((kind, h))


def shipped(sub, item):
    from auxi.tools.materialphysicalproperties import gases, liquids
    name, n = item
    if name == "water":
        m, ds = liquids.h2o, "dataset-water-lienhard2015.csv"
    else:
        m, ds = gases.materials[name], "dataset-%s-lienhard2018.csv" % physmodels.GASES[name]
    identity(sub, name, m, ds)
    lo, hi = physmodels.span(ds)
    for T in physmodels.steps(lo, hi, n):
        case = dict(material=name, T=T)
        with sub.guard("shipped", case):
            sub.step(7)
            v = {p: getattr(m, p)(T=T) for p in PROPS}
            sub.expect(core.close(v["alpha"], v["k"] / (v["rho"] * v["Cp"]), 1e-12, 0), "shipped/alpha", "%r" % v, case)
            if name != "water":
                sub.expect(core.close(v["nu"], v["mu"] / v["rho"], 1e-12, 0), "shipped/nu", "%r" % v, case)
                sub.expect(core.close(v["beta"], 1.0 / T, 1e-12, 0), "shipped/beta", "%r" % v, case)
            else:
                sub.expect(core.close(v["nu"], v["mu"] / v["rho"], 0.03, 0), "shipped/nu", "%r" % v, case)
        sub.state((name, T))
        sub.trace(case)
    # at the temperatures of the data set the fitted properties are those of the data set
    data = physmodels.dataset(ds)
    for i, T in enumerate(data["T"]):
        for p in ("rho", "Cp", "mu", "k"):
            case = dict(material=name, T=T, property=p)
            with sub.guard("data", case):
                sub.step()
                got = getattr(m, p)(T=float(T))
                sub.expect(core.close(got, data[p][i], TOL, 0), "data/%s.%s" % (name, p),
                           "%s of %s at %r K: %r, data %r" % (p, name, T, got, data[p][i]), case)
            sub.trace(case)


def identity(sub, name, m, ds):
    """The name and state of a shipped material and the descriptions of its models are those of its data set."""
    from auxi.tools.materialphysicalproperties.core import StateOfMatter
    rows = physmodels.header(ds)
    material, symbols, units = rows[0][1], rows[6], rows[5]
    case = dict(material=name, data=ds)
    with sub.guard("identity", case):
        sub.step(3)
        sub.expect(m.name == material, "identity/name", "shipped material %s is named %r, its data set %r" % (name, m.name, material), case)
        want = StateOfMatter.liquid if name == "water" else StateOfMatter.gas
        sub.expect(m.mstate == want, "identity/state", "state of %s is %r" % (name, m.mstate), case)
        for p in ("rho", "Cp", "mu", "k", "beta", "nu"):
            o = m.__dict__.get(p)
            if o is None:
                continue
            case = dict(material=name, property=p)
            sub.step()
            sub.expect(o.symbol == p, "identity/symbol", "the model for %s of %s has symbol %r" % (p, name, o.symbol), case)
            sub.expect(o.material in (material, "Ideal Gas"), "identity/material", "the model for %s of %s is of %r" % (p, name, o.material), case)
            if p in symbols:
                sub.expect(o.units == units[symbols.index(p)], "identity/units", "units of %s of %s are %r" % (p, name, o.units), case)
            if o.material == material:
                sub.expect(list(o.datasets) == [ds], "identity/dataset", "the model for %s of %s is based on %r" % (p, name, o.datasets), case)
    sub.state((name, "identity"))
    sub.trace(case)


TOL = 0.03


def run(chk):
    chk.parallel(subsets, range(len(PROPS)))
    chk.parallel(pairs, [(f, 3 if chk.quick else 4) for f in range(21)])
    chk.parallel(real_pairs, [("TP", 3 if chk.quick else 4), ("Tx", 3 if chk.quick else 4)])
    chk.parallel(shipped, [(g, 1000 if chk.quick else 20000) for g in list(physmodels.GASES) + ["water"]])
    chk.bounds = dict(model_subsets=128, evaluation_histories="7 properties x 3 states, length %d" % (3 if chk.quick else 4), states=len(STATES), shipped_materials=9)
    chk.assumptions = ["shipped fits are compared with their data sets with the tolerance of the fit  (3 %)"]
