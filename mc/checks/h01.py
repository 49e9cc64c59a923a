"""H01: natural convection over isothermal flat surfaces.

Every Region over an alphabet of limits and flags against a direct reading of its arguments; every
(angle, order of magnitude of Ra) cell and border of the region diagram must belong to exactly one
region; every (fluid, phase, angle, length, hot/cold temperature pair) against an independent table
of the correlations; every ordered pair of evaluations on a shared model against fresh models.
"""
import itertools, math
from mc import core

G = 9.80665
INF = float("inf")


class Fluid:
    """A stand-in fluid whose properties depend on temperature in a known way."""

    def __init__(self, beta=3e-3, nu=1.6e-5, alpha=2.2e-5, k=0.026, e=(-1.0, 1.7, 1.8, 0.8)):
        self.v = dict(beta=beta, nu=nu, alpha=alpha, k=k)
        self.e = dict(zip(("beta", "nu", "alpha", "k"), e))

    def _get(self, p, T):
        return self.v[p] * (T / 300.0) ** self.e[p]

    def beta(self, T): return self._get("beta", T)
    def nu(self, T): return self._get("nu", T)
    def alpha(self, T): return self._get("alpha", T)
    def k(self, T): return self._get("k", T)


def correlation(phi, logRa, Ra, Pr):
    """The Nusselt numbers of the region diagram; phi is the angle of a hot surface."""
    lam, tur = 0.59 * Ra ** 0.25, 0.1 * Ra ** (1 / 3.0)
    cc = 0.68 + 0.67 * Ra ** 0.25 / (1.0 + (0.492 / Pr) ** (9.0 / 16.0)) ** (4.0 / 9.0)
    if phi <= -52:
        if abs(logRa - 7) < 1e-9:
            return [lam, tur]
        return [lam] if logRa < 7 else [tur]
    if phi == 0:
        return [0.678 * Ra ** 0.25 * (Pr / (0.952 + Pr)) ** 0.25]
    if phi < 88:
        return [cc]
    return [0.58 * Ra ** 0.2]


def oracle(fluid, gas, L, theta, Ts, Tf):
    Tr = Ts - (0.38 if gas else 0.5) * (Ts - Tf)
    beta = fluid.beta(T=Tf if gas else Tr)
    nu, alpha, k = fluid.nu(T=Tr), fluid.alpha(T=Tr), fluid.k(T=Tr)
    phi = theta if Ts > Tf else -theta
    g = G * math.cos(math.radians(phi)) if 0 < phi < 45 else G
    Ra = g * beta * abs(Ts - Tf) * L ** 3 / (nu * alpha)
    return [float(n) for n in correlation(phi, math.log10(Ra) if Ra > 0 else -INF, Ra, nu / alpha)], float(k), Ra


# ---------------------------------------------------------------- regions
def regions(sub, item):
    from auxi.tools.transportphenomena.heattransfer.naturalconvection import IsothermalFlatSurface as I
    tmin, tmini = item
    lims = (None, 4, 7.5)
    for tmax, tmaxi, rmin, rmini, rmax, rmaxi in itertools.product((-60, 0, 33.5), (True, False), lims, (True, False), lims, (True, False)):
        if tmax < tmin or (rmin is not None and rmax is not None and rmax < rmin):
            continue
        case = dict(args=[tmin, tmini, tmax, tmaxi, rmin, rmini, rmax, rmaxi])
        with sub.guard("region", case):
            r = I.Region("r", tmin, tmini, tmax, tmaxi, rmin, rmini, rmax, rmaxi, "d")
            for th in (-91, -90, -89.9, -60.5, -60, -59.5, -0.1, 0, 0.1, 33, 33.5, 34, 90):
                for ra in (-INF, -3, 3.99, 4, 4.01, 7, 7.5, 7.51, 12, INF):
                    want = ((tmin <= th if tmini else tmin < th) and (th <= tmax if tmaxi else th < tmax)
                            and (rmin is None or (rmin <= ra if rmini else rmin < ra))
                            and (rmax is None or (ra <= rmax if rmaxi else ra < rmax)))
                    sub.step()
                    got = r.contains_point(th, ra)
                    sub.expect(got == want, "region/contains", "point (%r, %r): %r, expected %r" % (th, ra, got, want), case)
                    sub.outcome("inside" if want else "outside")
        sub.state(("region", repr(case)))
        sub.trace(case)


def angles(n):
    edges = [-90, -60, -52, -45, 0, 45, 88, 89, 90]
    out = set(float(e) for e in edges)
    for e in edges:
        for d in (1e-9, 0.5):
            out |= {e - d, e + d}
        out |= {math.nextafter(e, -100), math.nextafter(e, 100)}
    for a, b in zip(edges, edges[1:]):
        out |= {a + (b - a) * (i + 1) / (n + 1) for i in range(n)}
    return sorted(x for x in out if -90 <= x <= 90)


def orders():
    edges = [4, 5, 6, 7, 9, 10, 11]
    out = {-INF, -5.0, 0.0, 3.0, 12.0, 15.0}
    for e in edges:
        out |= {float(e), e - 0.5, e + 0.5, math.nextafter(e, 0), math.nextafter(e, 100)}
    return sorted(out)


def diagram(sub, item):
    from auxi.tools.transportphenomena.heattransfer.naturalconvection import IsothermalFlatSurface as I
    gas, n = item
    m = I(Fluid(), gas)
    with sub.guard("diagram", item):
        for th, ra in itertools.product(angles(n), orders()):
            sub.step()
            inside = [r.name for r in m.regions if r.contains_point(th, ra)]
            sub.expect(len(inside) == 1, "diagram/cover", "angle %r, order %r of Ra in regions %r" % (th, ra, inside), dict(angle=th, order=ra))
            sub.state(("cell", th, ra))
            sub.trace((th, ra))


# ---------------------------------------------------------------- evaluations
def fluids(name):
    if name == "air":
        from auxi.tools.materialphysicalproperties.gases import air
        return air
    if name == "water":
        from auxi.tools.materialphysicalproperties.liquids import h2o
        return h2o
    if name == "metal":
        return Fluid(1e-4, 2e-7, 1e-5, 20.0, (0.1, -0.9, 0.4, -0.3))
    return Fluid()


def judge(sub, m, fluid, gas, L, th, Ts, Tf, case, key):
    want, k, Ra = oracle(fluid, gas, L, th, Ts, Tf)
    got = [float(f(L, th, Ts, T=Tf)) for f in (m.Nu_x, m.Nu_L, m.h_x, m.h_L)]
    sub.step(4)
    if Ra > 0:
        sub.expect(all(math.isfinite(v) and v > 0 for v in got), key + "/positive", "%r" % got, case)
    ok = any(core.allclose(got, [w, w / 0.75, w * k / L, w / 0.75 * k / L], 1e-9, 1e-300) for w in want)
    sub.expect(ok, key + "/value", "Nu_x, Nu_L, h_x, h_L = %r; expected Nu_x %r, k %r (Ra %g)" % (got, want, k, Ra), case)
    return "Ra~1e%d" % round(math.log10(Ra)) if Ra > 0 else "Ra=0"


PAIRS = dict(gas=[(313.0, 283.0), (283.0, 313.0), (300.0, 300.0), (900.0, 300.0), (300.0, 900.0), (300.0, 300.001), (300.001, 300.0)],
             air=[(313.0, 283.0), (283.0, 313.0), (400.0, 300.0), (300.0, 400.0), (300.0, 299.99)],
             water=[(313.0, 300.0), (300.0, 313.0), (350.0, 340.0), (340.0, 350.0), (300.0, 299.99)])


def evaluations(sub, item):
    from auxi.tools.transportphenomena.heattransfer.naturalconvection import IsothermalFlatSurface as I
    name, gas, n, nl = item
    fluid = fluids(name)
    m = I(fluid, gas)
    Ls = [10.0 ** (-4 + 6.0 * i / (nl - 1)) for i in range(nl)]
    for Ts, Tf in PAIRS.get(name, PAIRS["gas"]):
        for th in angles(n):
            for L in Ls:
                case = dict(fluid=name, gas=gas, L=L, theta=th, Ts=Ts, Tf=Tf)
                with sub.guard("evaluation", case):
                    sub.outcome(judge(sub, m, fluid, gas, L, th, Ts, Tf, case, "evaluation"))
                sub.state((name, gas, Ts, Tf, th, L))
                sub.trace(case)


def borders(sub, item):
    """Ra on and next to every border of the diagram."""
    from auxi.tools.transportphenomena.heattransfer.naturalconvection import IsothermalFlatSurface as I
    gas, hot = item
    Ts, Tf = (310.0, 300.0) if hot else (300.0, 310.0)
    for order, f in itertools.product((4, 5, 6, 7, 9, 10, 11), (0.7, 1 - 1e-6, 1.0, 1 + 1e-6, 1.4)):
        for th in angles(1):
            phi = th if hot else -th
            c = math.cos(math.radians(phi)) if 0 < phi < 45 else 1.0
            Ra = 10.0 ** order * f
            for Pr in (0.01, 0.7, 100.0):
                fl = Fluid(Ra / (G * c * 10.0), math.sqrt(Pr), 1.0 / math.sqrt(Pr), 0.5, (0, 0, 0, 0))
                case = dict(gas=gas, theta=th, Ts=Ts, Tf=Tf, Ra=Ra, Pr=Pr)
                with sub.guard("border", case):
                    judge(sub, I(fl, gas), fl, gas, 1.0, th, Ts, Tf, case, "border")
                sub.state(("border", gas, hot, order, f, th, Pr))
                sub.trace(case)


CALLS = [(f, L, th, Ts, Tf) for f in ("Nu_x", "Nu_L", "h_x", "h_L") for L, th, Ts, Tf in
         ((0.4, 0.0, 313.0, 283.0), (0.4, -75.0, 283.0, 313.0), (0.02, 30.0, 350.0, 300.0), (3.0, 89.5, 340.0, 310.0), (0.1, -20.0, 305.0, 320.0))]


def histories(sub, item):
    """Sequences of calls on shared models of two fluids: each as on fresh models."""
    from auxi.tools.transportphenomena.heattransfer.naturalconvection import IsothermalFlatSurface as I
    first, depth = item
    make = lambda: [I(Fluid(), True), I(fluids("metal"), False)]
    fresh = {}
    for i, c in itertools.product((0, 1), CALLS):
        fresh[i, c] = float(getattr(make()[i], c[0])(c[1], c[2], c[3], T=c[4]))
    acts = [(i, c) for i in (0, 1) for c in (CALLS if depth == 2 else CALLS[::3])]
    for rest in itertools.product(acts, repeat=depth - 1):
        hist = (first,) + rest
        with sub.guard("history", repr(hist)):
            ms = make()
            for i, c in hist:
                sub.step()
                v = float(getattr(ms[i], c[0])(c[1], c[2], c[3], T=c[4]))
                sub.expect(v == fresh[i, c], "history/value", "%r: %r, fresh %r" % ((i, c), v, fresh[i, c]), repr(hist))
        sub.state(hist)
        sub.trace(repr(hist))


def number_kinds(sub, item):
    """Lengths, angles and temperatures given as integers and numpy numbers."""
    from auxi.tools.transportphenomena.heattransfer.naturalconvection import IsothermalFlatSurface as I
    from mc import kinds
    gas, th = item
    m = I(Fluid(), gas)
    for Ts, Tf in ((310, 290), (290, 310)):
        for f in ("Nu_x", "Nu_L", "h_x", "h_L"):
            kinds.same(sub, "numbers/" + f, lambda L, th, Ts, Tf: getattr(m, f)(L, th, Ts, T=Tf), (1, th, Ts, Tf), mixed=th in (-60, 0, 30))


def run(chk):
    n, nl = (3, 19) if chk.quick else (7, 37)
    chk.parallel(regions, itertools.product((-90, -60, 0), (True, False)))
    chk.parallel(diagram, [(True, 16 if chk.quick else 40), (False, 4)])
    chk.parallel(evaluations, [(f, g, n, nl) for f in ("air", "gas", "metal", "water") for g in (True, False)])
    chk.parallel(number_kinds, itertools.product((True, False), (-90, -75, -60, -30, 0, 30, 60, 90)))
    chk.parallel(borders, itertools.product((True, False), (True, False)))
    acts = [(i, c) for i in (0, 1) for c in CALLS]
    chk.parallel(histories, [(a, 2) for a in acts] + ([] if chk.quick else [(a, d) for d in (3, 4) for a in acts]))
    chk.bounds = dict(interior_angles_per_band=n, lengths=nl, history_depth=2 if chk.quick else 4)
    chk.assumptions = ["angles from -90 to 90 degrees with the vertical, positive for a hot surface that faces down",
                       "a cold surface is the mirror image of a hot one",
                       "positive thermal expansion coefficient",
                       "at an order of magnitude of exactly 7 either of the adjacent correlations is accepted"]
