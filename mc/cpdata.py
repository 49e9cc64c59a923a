"""Independent evaluation of piecewise heat-capacity data (quadrature instead of closed forms)."""
import glob, json, math, os
import numpy as np
from mc import core, formula

_X, _W = np.polynomial.legendre.leggauss(32)
RGAS = 8.31446261815324


def gauss(f, a, b):
    """Integral of a smooth f over [a, b], panels growing geometrically (positive a)."""
    if a == b:
        return 0.0
    sign = 1.0
    if b < a:
        a, b, sign = b, a, -1.0
    n = max(1, int(math.ceil(math.log(b / a) / 0.35)))
    edges = a * (b / a) ** (np.arange(n + 1) / n)
    edges[0], edges[-1] = a, b
    tot = 0.0
    for lo, hi in zip(edges[:-1], edges[1:]):
        x = 0.5 * (hi - lo) * _X + 0.5 * (hi + lo)
        tot += 0.5 * (hi - lo) * float(np.dot(_W, f(x)))
    return sign * tot


class PhaseRef:
    """records: list of (Tmin, Tmax, [(coefficient, exponent)]) sorted by Tmax."""

    def __init__(self, dh, s, records, magnetic=None):
        self.dh, self.s = float(dh), float(s)
        self.records = sorted(((float(a), float(b), [(float(c), float(e)) for c, e in t]) for a, b, t in records), key=lambda r: r[1])
        self.tmax = self.records[-1][1]
        self.mag = magnetic
        self._cache = {}

    def poly(self, terms, T):
        return sum(c * T ** e for c, e in terms) if terms else 0.0 * T

    def cp(self, T):
        """Set of acceptable values (two at a boundary)."""
        out = []
        for i, (a, b, terms) in enumerate(self.records):
            last = i == len(self.records) - 1
            if (T <= b or last) and (i == 0 or T >= self.records[i - 1][1]):
                out.append(self.poly(terms, min(T, b) if last else T))
        return [c + self.cpmag(T) for c in out]

    def cpmag(self, T):
        if not self.mag:
            return 0.0
        tc, b0, p = self.mag
        t = T / tc
        d = 518. / 1125 + 11692. / 15975 * (1. / p - 1)
        if t <= 1:
            g = 474. / 497 * (1. / p - 1) * (2 * t ** 3 + 2 * t ** 9 / 3 + 2 * t ** 15 / 5)
        else:
            g = 2 * t ** -5 + 2 * t ** -15 / 3 + 2 * t ** -25 / 5
        return RGAS * math.log(b0 + 1) * g / d

    def _integral(self, T, entropy):
        """From the lower limit of the first record."""
        tot = 0.0
        for i, (a, b, terms) in enumerate(self.records):
            last = i == len(self.records) - 1
            hi = min(T, b)
            if i and T <= a:
                break
            key = (i, entropy)
            if hi == b and key in self._cache:
                tot += self._cache[key]
            else:
                v = gauss((lambda x: self.poly(terms, x) / x) if entropy else (lambda x: self.poly(terms, x)), a, hi) if terms else 0.0
                if hi == b:
                    self._cache[key] = v
                tot += v
            if last and T > b:
                cp = self.poly(terms, b)
                tot += cp * math.log(T / b) if entropy else cp * (T - b)
        return tot

    def h(self, T):
        return self.dh + self._integral(T, False)

    def S(self, T):
        return self.s + self._integral(T, True)

    def g(self, T):
        return self.h(T) - T * self.S(T)

    def scales(self, T):
        """Magnitudes used for the tolerances: the sums are of large terms that cancel."""
        h = abs(self.dh) + 100.0 * T
        for a, b, terms in self.records:
            for c, e in terms:
                for t in (a, min(b, max(T, a))):
                    h = max(h, abs(c) * t ** (e + 1) / max(1.0, abs(e + 1)))
        return h


class CompoundRef:
    def __init__(self, formula_, phases, reference=""):
        self.formula, self.phases, self.reference = formula_, phases, reference

    @property
    def molar_mass(self):
        from auxi.tools.chemistry import stoichiometry
        return sum(n * stoichiometry.molar_mass(e) for e, n in formula.atoms(self.formula).items()) / 1000.0


def read_json(path):
    d = json.load(open(path))
    phases = {}
    for k, p in d["_phases"].items():
        recs = [(r["Tmin"], r["Tmax"], list(zip(r["_coefficients"], r["_exponents"]))) for r in p["_Cp_records"].values()]
        phases[k] = PhaseRef(p["DHref"], p["Sref"], recs)
    return CompoundRef(d["formula"], phases, d.get("reference", ""))


def folder(name):
    return os.path.join(core.REPO, "auxi", "tools", "chemistry", "data", name)


def shipped(name="rao"):
    out = {}
    for p in sorted(glob.glob(os.path.join(folder(name), "Compound_*.json"))):
        c = read_json(p)
        assert c.formula not in out, c.formula
        out[c.formula] = c
    return out


def dictionary(c):
    """The dictionary form accepted by thermochemistry.Compound."""
    phs = {}
    for k, p in c.phases.items():
        d = dict(Symbol=k, DHref=p.dh, Sref=p.s,
                 Cp_records={str(b): dict(Tmin=a, Tmax=b, Terms=[dict(Coefficient=x, Exponent=e) for x, e in t])
                             for a, b, t in p.records})
        if p.mag:
            d["magnetic"] = dict(Tc=p.mag[0], beta0=p.mag[1], p=p.mag[2])
        phs[k] = d
    out = dict(Formula=c.formula, Phases=phs)
    if c.reference:
        out["Reference"] = c.reference
    return out
