"""P02: gas-mixture mixing rules and ideal-gas models.

Every mixture of up to three of the supported gases on a grid of fractions (zeros included), in
every order and at several scales, on a temperature grid over the range the gases share, against
the published mixing rules evaluated on the observed pure-gas values; ideal-gas models on a grid of
every parameter.
"""
import itertools, math
from mc import core, formula, physmodels

AIR = 28.9645
R = 8.31446261815324


def mw(g):
    return AIR if g == "Air" else sum(n * formula.ATOMIC[e] for e, n in formula.atoms(g).items())


def wilke(x, mu):
    tot = 0.0
    for i in x:
        s = 0.0
        for j in x:
            phi = (1 + math.sqrt(mu[i] / mu[j]) * (mw(j) / mw(i)) ** 0.25) ** 2 / math.sqrt(8 * (1 + mw(i) / mw(j)))
            s += x[j] * phi
        tot += x[i] * mu[i] / s if x[i] else 0.0
    return tot


def herning(x, mu):
    return sum(x[i] * mu[i] * math.sqrt(mw(i)) for i in x) / sum(x[i] * math.sqrt(mw(i)) for i in x)


def ideal_cp(x, cp):
    return sum(x[i] * mw(i) * cp[i] for i in x) / sum(x[i] * mw(i) for i in x)


def models():
    from auxi.tools.materialphysicalproperties import gases
    return gases, dict(WilkeMuTx=(gases.WilkeMuTx(), "mu", wilke), HerningZippererMuTx=(gases.HerningZippererMuTx(), "mu", herning),
                       IdealCpTx=(gases.IdealCpTx(), "Cp", ideal_cp))


def mixtures(sub, item):
    gs, fractions, nT = item
    gases, ms = models()
    lo = max(physmodels.span_of(g)[0] for g in gs)
    hi = min(physmodels.span_of(g)[1] for g in gs)
    for T in physmodels.steps(lo, hi, nT):
        pure = {p: {g: float(getattr(gases.materials[g], p)(T=T)) for g in gs} for p in ("mu", "Cp")}
        for fr in itertools.product(fractions, repeat=len(gs)):
            if not sum(fr):
                continue
            tot = sum(fr)
            x = {g: f / tot for g, f in zip(gs, fr)}
            for name, (m, prop, rule) in ms.items():
                case = dict(model=name, T=T, x=dict(zip(gs, fr)))
                with sub.guard("mixture/" + name, case):
                    want = rule(x, pure[prop])
                    first = None
                    for perm in itertools.permutations(range(len(gs))):
                        for scale in (1.0, 0.01, 250.0):
                            sub.step()
                            given = {gs[i]: fr[i] * scale for i in perm}
                            keep = list(given.items())
                            v = m(T=T, x=given)
                            # atomic masses of other tables differ in the fifth digit
                            sub.expect(core.close(v, want, 1e-5, 0), "rule/" + name, "%r: %r, rule gives %r" % (given, v, want), case)
                            if first is None:
                                first = v
                            sub.expect(core.close(v, first, 1e-11, 0), "order-scale/" + name, "%r: %r, otherwise %r" % (given, v, first), case)
                            sub.expect(list(given.items()) == keep, "input/" + name, "input became %r" % given, case)
                    nz = [g for g, f in zip(gs, fr) if f]
                    vals = [pure[prop][g] for g in nz]
                    if len(nz) == 1:
                        sub.expect(core.close(first, vals[0], 1e-11, 0), "pure/" + name, "pure %s: %r, mixture model %r" % (nz[0], vals[0], first), case)
                    elif name != "WilkeMuTx":
                        sub.expect(min(vals) * (1 - 1e-12) <= first <= max(vals) * (1 + 1e-12), "between/" + name, "%r not within %r" % (first, vals), case)
                    # components the model does not know do not count; removing zero fractions changes nothing
                    sub.step(2)
                    v = m(T=T, x={g: f for g, f in zip(gs, fr) if f})
                    sub.expect(core.close(v, first, 1e-11, 0), "zero-components/" + name, "without zero fractions %r, with %r" % (v, first), case)
                    v = m(T=T, x=dict([("SiO2", 0.5)] + list(zip(gs, fr)) + [("Fe", 2.0)]))
                    sub.expect(core.close(v, first, 1e-11, 0), "other-components/" + name, "with unsupported components %r, without %r" % (v, first), case)
                sub.state((name, T, tuple(zip(gs, fr))))
                sub.outcome("%s gases=%d zeros=%d" % (name, len(gs), fr.count(0.0)))
                sub.trace(case)


def ideal(sub, n):
    from auxi.tools.materialphysicalproperties import idealgas
    Ts = [1e-3, 1.0, 200.0, 273.15, 298.15, 1000.0 / 3, 1873.15, 5000.0, 1e5][:n]
    Ps = [1e-3, 1.0, 5e4, 101325.0, 2.5e6, 1e9]
    Ms = [2.016, 28.9645, 44.01, 352.0]
    for T in Ts:
        with sub.guard("beta", dict(T=T)):
            sub.step()
            sub.eq(idealgas.BetaT()(T=T), 1.0 / T, "beta", dict(T=T), 1e-13, 0)
            sub.trace(T)
        for M, P in itertools.product(Ms, Ps):
            case = dict(T=T, P=P, M=M)
            with sub.guard("rho", case):
                sub.step(2)
                want = P * M / 1000.0 / (R * T)
                sub.eq(idealgas.RhoT(M, P)(T=T), want, "RhoT", case, 1e-8, 0)
                m = idealgas.RhoTP(M)
                sub.eq(m(T=T, P=P), want, "RhoTP", case, 1e-8, 0)
                sub.expect(core.close(m(T=2 * T, P=P) * 2, m(T=T, P=P), 1e-12, 0) and core.close(m(T=T, P=3 * P), 3 * m(T=T, P=P), 1e-12, 0),
                           "RhoTP/proportional", repr(case), case)
            sub.state((T, P, M))
            sub.trace(case)
        x_s = [{a: 1.0} for a in ("N2", "CO2", "H2O", "Ar", "SF6", "CH4")]
        for a, b in itertools.permutations(("N2", "CO2", "H2O", "Ar", "SF6"), 2):
            for f in (0.0, 0.1, 0.5, 0.75):
                x_s.append({a: f, b: 1 - f})
        for a, b, c in itertools.permutations(("N2", "CO2", "H2O", "Ar"), 3):
            x_s.append({a: 0.2, b: 0.3, c: 0.5})
        model = idealgas.RhoTPx()
        for x, P in itertools.product(x_s, Ps):
            case = dict(T=T, P=P, x=x)
            with sub.guard("RhoTPx", case):
                sub.step()
                keep = list(x.items())
                mbar = sum(f * mw(g) for g, f in x.items())
                got = model(T=T, P=P, x=x)
                sub.expect(core.close(got, P * mbar / 1000.0 / (R * T), 2e-5, 0), "RhoTPx", "%r: %r" % (case, got), case)
                sub.expect(list(x.items()) == keep, "RhoTPx/input", repr(x), case)
                from auxi.tools.chemistry import stoichiometry
                mb = sum(f * stoichiometry.molar_mass(g) for g, f in x.items())
                sub.expect(core.close(got, idealgas.RhoTP(mb)(T=T, P=P), 1e-12, 0), "RhoTPx/RhoTP", "%r" % got, case)
                sub.expect(core.close(got, idealgas.RhoT(mb, P)(T=T), 1e-12, 0), "RhoTPx/RhoT", "%r" % got, case)
            sub.state((T, P, tuple(x.items())))
            sub.trace(case)


def run(chk):
    q = chk.quick
    gs = list(physmodels.GASES)
    items = [((g,), (1.0, 0.3), 200 if q else 400) for g in gs]
    items += [(p, (0.0, 0.1, 0.5, 1.0) if q else tuple(i / 10 for i in range(11)), 3 if q else 10) for p in itertools.combinations(gs, 2)]
    # traces of one gas in another
    items += [(p, (5e-4, 0.004, 1.0), 2 if q else 6) for p in itertools.combinations(gs, 2)]
    items += [(p, (1e-3, 0.5), 1 if q else 3) for p in itertools.combinations(gs, 3)]
    items += [(p, (0.0, 0.25, 1.0) if q else (0.0, 0.1, 0.25, 0.5, 1.0), 2 if q else 4) for p in itertools.combinations(gs, 3)]
    items += [(p, (0.0, 1.0), 1 if q else 3) for p in itertools.combinations(gs, 4)]
    if not q:
        items += [(p, (0.0, 1.0), 1) for p in itertools.combinations(gs, 5)]
    chk.parallel(mixtures, items)
    chk.parallel(ideal, [9])
    chk.bounds = dict(gases=gs, mixture_size=4 if q else 5, fraction_grid=[0.0, 5e-4, 1e-3, 0.004, 0.1, 0.25, 0.5, 1.0] if q else [i / 10 for i in range(11)],
                      orders="all", scales=[1.0, 0.01, 250.0])
    chk.assumptions = ["temperatures lie in the range shared by all listed gases", "mole fractions given to the ideal-gas density model sum to one"]
