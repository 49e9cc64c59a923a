"""All property models with independently stated domains."""
import csv, glob, os
from mc import core

GASES = dict(Air="air", Ar="argon", NH3="ammonia", CO2="carbon-dioxide", CO="carbon-monoxide", N2="nitrogen", O2="oxygen", H2O="water-vapour")
X_SLAG = {"SiO2": 0.35, "CaO": 0.35, "MgO": 0.1, "FeO": 0.1, "Al2O3": 0.05, "P2O5": 0.02, "Fe2O3": 0.03}
X_SLAG2 = {"SiO2": 0.5, "CaO": 0.3, "B2O3": 0.1, "CaF2": 0.02, "Na2O": 0.08}
# the same things, given in kmol and in percent
X_SLAG_MOL = {k: 7.3 * v for k, v in X_SLAG.items()}
X_SLAG_PCT = {k: 100.0 * v for k, v in X_SLAG2.items()}


def data_dir():
    return os.path.join(core.REPO, "auxi", "tools", "materialphysicalproperties", "data")


def dataset(name):
    """{symbol: column} of a shipped data set, read independently of the repository."""
    rows = list(csv.reader(open(os.path.join(data_dir(), name), newline="")))
    cols = rows[6]
    body = [r for r in rows[7:] if any(c.strip() for c in r)]
    return {c: [float(r[i]) if r[i].strip() else None for r in body] for i, c in enumerate(cols) if c}


def header(name):
    """The seven header rows of a shipped data set."""
    return list(csv.reader(open(os.path.join(data_dir(), name), newline="")))[:7]


def span(name):
    t = dataset(name)["T"]
    return min(t), max(t)


class Spec:
    """A model, what it needs, and states inside its domain."""

    def __init__(self, name, model, ranges, dicts=(), inside=(), positive=True):
        self.name, self.model, self.ranges, self.dicts = name, model, ranges, dicts
        self.inside = list(inside)
        self.positive = positive


def steps(lo, hi, n):
    return [lo + (hi - lo) * i / n for i in range(n)] + [hi]


def specs(n=24):
    from auxi.tools.materialphysicalproperties import coals, gases, idealgas, liquids, slags
    out = []
    wide = [1.0, 0.5, 20.0, 273.15, 298.15, 1000.0, 2500.0, 8000.0]
    out.append(Spec("ideal.BetaT", idealgas.BetaT(), dict(T=(0.0, None)), inside=[dict(T=t) for t in wide]))
    out.append(Spec("ideal.RhoT", idealgas.RhoT(28.9645, 101325.0), dict(T=(0.0, None)), inside=[dict(T=t) for t in wide]))
    out.append(Spec("ideal.RhoTP", idealgas.RhoTP(44.0), dict(T=(0.0, None), P=(0.0, None)),
                    inside=[dict(T=t, P=p) for t in wide for p in (1.0, 101325.0, 5e6)]))
    out.append(Spec("ideal.RhoTPx", idealgas.RhoTPx(), dict(T=(0.0, None), P=(0.0, None)), ("x",),
                    [dict(T=t, P=p, x=dict(x)) for t in wide for p in (1.0, 101325.0) for x in ({"CO2": 1.0}, {"N2": 0.79, "O2": 0.21})]))
    for g, name in GASES.items():
        m = gases.materials[g]
        lo, hi = span("dataset-%s-lienhard2018.csv" % name)
        for p in ("Cp", "mu", "k") + (("rho",) if g in ("NH3", "CO2") else ()):
            out.append(Spec("%s.%s" % (g, p), getattr(m, p), dict(T=(lo, hi)), inside=[dict(T=t) for t in steps(lo, hi, n)]))
        for p in ("beta",) + (("rho",) if g not in ("NH3", "CO2") else ()):
            out.append(Spec("%s.%s" % (g, p), getattr(m, p), dict(T=(0.0, None)), inside=[dict(T=t) for t in wide]))
    lo, hi = span("dataset-water-lienhard2015.csv")
    for p in ("rho", "Cp", "k", "mu", "nu", "beta"):
        out.append(Spec("water.%s" % p, getattr(liquids.h2o, p), dict(T=(lo, hi)), inside=[dict(T=t) for t in steps(lo, hi, n)],
                        positive=p != "beta"))
    lo = max(span("dataset-%s-lienhard2018.csv" % v)[0] for v in ("nitrogen", "oxygen", "carbon-dioxide", "water-vapour"))
    hi = min(span("dataset-%s-lienhard2018.csv" % v)[1] for v in ("nitrogen", "oxygen", "carbon-dioxide", "water-vapour"))
    mixes = ({"N2": 0.79, "O2": 0.21}, {"CO2": 1.0}, {"N2": 3.0, "O2": 1.0, "CO2": 1.0, "H2O": 0.0}, {"CO2": 1.0, "SiO2": 4.0}, {"N2": 78.0, "O2": 20.0, "H2O": 2.0})
    for cls in (gases.WilkeMuTx, gases.HerningZippererMuTx, gases.IdealCpTx):
        out.append(Spec("mix.%s" % cls.__name__, cls(), dict(T=(0.0, None)), ("x",),
                        [dict(T=t, x=dict(x)) for t in steps(lo, hi, n // 4) for x in mixes]))
    for cls, k in ((slags.UrbainViscosityTx, "x"), (slags.UrbainViscosityTy, "y"), (slags.RiboudViscosityTx, "x"), (slags.RiboudViscosityTy, "y")):
        out.append(Spec("slag.%s" % cls.__name__, cls(), dict(T=(0.0, None)), (k,),
                        [{"T": t, k: dict(x)} for t in steps(1200.0, 2200.0, n // 4) for x in (X_SLAG, X_SLAG_MOL, X_SLAG2, X_SLAG_PCT)]))
    ys = dict.fromkeys(("y_C", "y_H", "y_O", "y_N", "y_S"), (0.0, 1.0))
    comps = [dict(y_C=0.83, y_H=0.045, y_O=0.1, y_N=0.02, y_S=0.005), dict(y_C=1.0, y_H=0.0, y_O=0.0, y_N=0.0, y_S=0.0),
             dict(y_C=0.0, y_H=1.0, y_O=0.0, y_N=0.0, y_S=0.0), dict(y_C=0.25, y_H=0.25, y_O=0.25, y_N=0.125, y_S=0.125)]
    for cls in (coals.DafCpTy, coals.DafHTy):
        out.append(Spec("coal.%s" % cls.__name__, cls(), dict(T=(0.0, None), **ys),
                        inside=[dict(T=t, **c) for t in (50.0, 273.15, 298.15, 700.0, 1100.0, 2500.0) for c in comps]))
    return out


def span_of(g):
    return span("dataset-%s-lienhard2018.csv" % GASES[g])
