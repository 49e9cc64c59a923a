"""T01: heat capacity, enthalpy, entropy and Gibbs energy.

Every phase of every shipped compound (rao and nist data) and every synthetic phase of a bounded
family (number of ranges, kinds of Cp terms, magnetic or not) at every temperature of a grid that
contains every range boundary and its neighbours, in every entry point, against quadrature of the
heat capacity read from the data files themselves; every observed pair of temperatures is also
compared with the integral of the heat capacity. Every short history of evaluations.
"""
import itertools, math
from mc import core, cpdata


def tc():
    from auxi.tools.chemistry import thermochemistry
    return thermochemistry


def grid(ph, coarse):
    lo = ph.records[0][0]
    ts = {298.15, 273.15, 300.0, 1000.0, lo + 50.0, ph.tmax + 1.0, ph.tmax + 10.0, ph.tmax * 1.5, ph.tmax + 2500.0}
    t = max(150.0, 50.0)
    while t < ph.tmax + 600:
        ts.add(t)
        t += coarse
    for a, b, _ in ph.records:
        for d in (0.0, -1e-9, 1e-9, -1e-3, 1e-3, -1.0, 1.0):
            ts.add(a + d)
            ts.add(b + d)
    if ph.mag:
        for d in (0.0, -1e-9, 1e-9, -0.5, 0.5):
            ts.add(ph.mag[0] + d)
    return sorted(x for x in ts if x > 50.0)


def points(sub, comp, ref, name, ph, coarse, key, masses=(1.0,)):
    """All temperatures of one phase of one compound, all entry points."""
    t = tc()
    obs = {}
    for T in grid(ph, coarse):
        case = dict(compound=ref.formula, phase=name, T=T)
        sub.state((key, ref.formula, name, T))
        with sub.guard(key, case):
            sub.step(4)
            cp, h, s, g = comp.Cp(name, T), comp.H(name, T), comp.S(name, T), comp.G(name, T)
            obs[T] = (cp, h, s, g)
            tol = ph.scales(T) * 2e-11 + 1e-7
            ok = ph.cp(T)
            sub.expect(any(core.close(cp, x, 1e-8, 1e-8) for x in ok), key + "/Cp", "Cp at %r K: %r, expected %r" % (T, cp, ok), case)
            if not ph.mag:
                sub.expect(core.close(h, ph.h(T), 1e-11, tol), key + "/H", "H at %r K: %r, expected %r" % (T, h, ph.h(T)), case)
                sub.expect(core.close(s, ph.S(T), 1e-11, tol / T * 4 + 1e-7), key + "/S", "S at %r K: %r, expected %r" % (T, s, ph.S(T)), case)
            sub.expect(core.close(g, h - T * s, 1e-11, tol), key + "/G", "G at %r K: %r, H-TS %r" % (T, g, h - T * s), case)
            for m in masses:
                for fn, v in (("Cp", cp), ("H", h), ("S", s), ("G", g)):
                    sub.step()
                    got = getattr(t, fn)("%s[%s]" % (ref.formula, name), T - 273.15, m) if m != 1.0 else \
                        getattr(t, fn)("%s[%s]" % (ref.formula, name), T - 273.15)
                    want = v / 3.6e6 / ref.molar_mass * m
                    tl = abs(want) * 2e-9
                    if fn == "Cp" and not core.close(got, want, 1e-7, 1e-13):
                        # the Celsius conversion may round to the other side of a boundary
                        if any(core.close(got, x / 3.6e6 / ref.molar_mass * m, 1e-7, 1e-13) for x in
                               ph.cp(T - 273.15 + 273.15) + ph.cp(T)):
                            continue
                    # H, S and G may nearly cancel: allow for rounding of T
                    tl += (tol + abs(cp) * 1e-9 + abs(s) * 1e-9) / 3.6e6 / ref.molar_mass * abs(m)
                    sub.expect(core.close(got, want, 1e-7 if fn == "Cp" else 1e-10, tl), key + "/function-" + fn,
                               "%s(%s[%s], %r, %r) = %r, expected %r" % (fn, ref.formula, name, T - 273.15, m, got, want), case)
            sub.trace(case)
    # integrals of the observed behaviour, between neighbours
    ts = sorted(obs)
    for a, b in zip(ts, ts[1:]):
        if b - a > 10 or b - a < 1e-7:
            if b - a < 1e-7:
                jump = abs(obs[b][1] - obs[a][1]), abs(obs[b][2] - obs[a][2])
                tol = ph.scales(b) * 1e-10 + 1e-5
                sub.expect(jump[0] < tol and jump[1] < tol / b * 4 + 1e-8, key + "/jump",
                           "%s[%s]: H and S jump by %r at %r K" % (ref.formula, name, jump, b), dict(compound=ref.formula, phase=name, T=b))
            continue
    if ph.mag:
        integrate(sub, comp, ref, name, ph, ts, obs, key)


def integrate(sub, comp, ref, name, ph, ts, obs, key):
    """Differences of H and S against quadrature of the reference heat capacity (magnetic part included)."""
    import numpy as np
    breaks = sorted({b for _, b, _ in ph.records} | {ph.mag[0]})
    for a, b in zip(ts, ts[1:]):
        cuts = [a] + [x for x in breaks if a < x < b] + [b]
        dh = ds = 0.0
        for lo, hi in zip(cuts, cuts[1:]):
            mid = 0.5 * (lo + hi)
            i = next((j for j, r in enumerate(ph.records) if mid < r[1]), None)
            terms = ph.records[i][2] if i is not None else None
            top = ph.poly(ph.records[-1][2], ph.tmax)
            f = (lambda x: np.array([(ph.poly(terms, y) if terms is not None else top) + ph.cpmag(y) for y in x]))
            if hi - lo < 1e-6:
                v = float(f(np.array([mid]))[0]) * (hi - lo)
                dh, ds = dh + v, ds + v / mid
            else:
                dh += cpdata.gauss(f, lo, hi)
                ds += cpdata.gauss(lambda x: f(x) / x, lo, hi)
        case = dict(compound=ref.formula, phase=name, T=[a, b])
        tol = ph.scales(b) * 1e-10 + 1e-5
        sub.expect(core.close(obs[b][1] - obs[a][1], dh, 1e-7, tol), key + "/dH",
                   "H(%r) - H(%r) = %r, integral of Cp %r" % (b, a, obs[b][1] - obs[a][1], dh), case)
        sub.expect(core.close(obs[b][2] - obs[a][2], ds, 1e-7, tol / a * 4 + 1e-8), key + "/dS",
                   "S(%r) - S(%r) = %r, integral of Cp/T %r" % (b, a, obs[b][2] - obs[a][2], ds), case)
    # far above the critical temperature only the non-magnetic enthalpy and entropy remain
    bare = cpdata.PhaseRef(ph.dh, ph.s, ph.records)
    far = ph.mag[0] * 60
    got = comp.H(name, far), comp.S(name, far)
    sub.expect(core.close(got[0], bare.h(far), 1e-8, 1e-2) and core.close(got[1], bare.S(far), 1e-8, 1e-6), key + "/magnetic-limit",
               "%r, without magnetic part %r" % (got, (bare.h(far), bare.S(far))), dict(compound=ref.formula, phase=name, T=far))


MASSES = (1.0, 0.0, 2.5, 1e-6, 3e-11, 1e6, -1.0)


def shipped(sub, item):
    name, formula, coarse = item
    t = tc()
    refs = cpdata.shipped(name)
    with sub.guard("load", dict(folder=name)):
        if name == "rao":
            t.load_data_auxi()
        else:
            t.load_data_auxi(cpdata.folder(name))
    ref = refs[formula]
    comp = t.compounds[formula]
    case = dict(compound=formula)
    sub.expect(sorted(comp.get_phase_list()) == sorted(ref.phases), "phase-list", "%s: %r" % (formula, comp.get_phase_list()), case)
    sub.expect(core.close(comp.molar_mass, ref.molar_mass), "compound/molar-mass", "%s: %r" % (formula, comp.molar_mass), case)
    sub.expect(core.close(t.molar_mass(formula), ref.molar_mass), "molar-mass", "%s: %r" % (formula, t.molar_mass(formula)), case)
    for k, ph in ref.phases.items():
        points(sub, comp, ref, k, ph, coarse, name, MASSES)
        sub.outcome("%s records=%d" % (name, len(ph.records)))
    reject(sub, comp, formula, sorted(ref.phases), "unknown")


def reject(sub, comp, formula, phases, key):
    t = tc()
    bad = ["", "X", "S9", "Q", "L0"] + [p.lower() for p in phases] + [p + "x" for p in phases]
    for p in bad:
        if p in phases:
            continue
        for fn in ("Cp", "H", "S", "G"):
            for label, call in (("compound", lambda: getattr(comp, fn)(p, 500.0)),
                                ("function", lambda: getattr(t, fn)("%s[%s]" % (formula, p), 500.0)),
                                ("unknown", lambda: getattr(t, fn)("%sQ[%s]" % (formula, phases[0]), 500.0)),
                                ("no-phase", lambda: getattr(t, fn)(formula, 500.0))):
                sub.step()
                try:
                    r = call()
                except (Exception, SystemExit):
                    sub.outcome("rejected")
                    continue
                sub.fail("%s/%s" % (key, label), "%s of %s phase %r gave %r" % (fn, formula, p, r), dict(compound=formula, phase=p))


TERMS = {"const": [(30.0, 0.0)], "lin": [(25.0, 0.0), (8e-3, 1.0)], "full": [(28.0, 0.0), (5e-3, 1.0), (-4e5, -2.0), (1e-6, 2.0)],
         "inv": [(9000.0, -1.0), (20.0, 0.0)], "root": [(40.0, 0.0), (-150.0, -0.5), (0.4, 0.5)], "cube": [(33.0, 0.0), (2e8, -3.0)],
         "empty": []}
# exponents near those with a special integral, and fractional ones
FRACTIONAL = {"%g" % e: [(26.0, 0.0), (20.0 * 500.0 ** -e, e)] for e in
              (-0.8, -1.2, -0.99, -1.01, -0.999999, -1.000001, -1.5, -2.5, -0.1, 0.1, 0.01, -0.01, 1e-6, -1e-6, 0.3, 1.5, 2.5, 3.0)}
TERMS.update(FRACTIONAL)
TERMS["many"] = [(4.0, 0.0), (5.0 * 500 ** 0.8, -0.8), (4.0 * 500, -1.0), (3.0 / 500 ** 0.1, 0.1), (2e-3, 1.0), (-1e5, -2.0), (3.0, 0.0)]
MAG = {"": None, "bcc": (1043.0, 2.22, 0.40), "fcc": (67.0, 0.7, 0.28), "low": (400.0, 1.35, 0.28)}


def synthetic(sub, item):
    kinds, mag, mode = item
    t = tc()
    edges = [298.15, 700.0, 1100.0, 1600.0, 2300.0]
    recs = [(edges[i], edges[i + 1], TERMS[k]) for i, k in enumerate(kinds)]
    order = recs if mode == "sorted" else recs[::-1]
    ph = cpdata.PhaseRef(-120000.0, 41.5, recs, MAG[mag])
    other = cpdata.PhaseRef(5000.0, 60.0, [(298.15, 900.0, TERMS["lin"])])
    ref = cpdata.CompoundRef("Fe2O3", {"S1": ph, "L": other})
    d = cpdata.dictionary(ref)
    d["Phases"]["S1"]["Cp_records"] = {("%d" % b if mode == "int" else str(b)): dict(Tmin=a if mode != "int" else str(a), Tmax=b,
                                       Terms=[dict(Coefficient=c, Exponent=e) for c, e in tt]) for a, b, tt in order}
    case = dict(kinds=list(kinds), mag=mag, mode=mode)
    with sub.guard("synthetic", case):
        keep = repr(d)
        comp = t.Compound(d)
        sub.expect(repr(d) == keep, "synthetic/input", "creating a compound changed its dictionary", case)
        t.compounds["Fe2O3"] = comp
        points(sub, comp, ref, "S1", ph, 150.0, "synthetic%d" % len(kinds) + ("mag" if mag else ""), (1.0, 3.0))
        points(sub, comp, ref, "L", other, 400.0, "synthetic-second")
    sub.outcome("synthetic records=%d mag=%s" % (len(kinds), bool(mag)))


def histories(sub, item):
    """Evaluations in any order give what a single evaluation gives."""
    first, depth = item
    t = tc()
    t.load_data_auxi()
    recs = [(298.15, 700.0, TERMS["full"]), (700.0, 1100.0, TERMS["inv"])]
    ref = cpdata.CompoundRef("FeO", {"S": cpdata.PhaseRef(-1e5, 50.0, recs), "L": cpdata.PhaseRef(-9e4, 60.0, recs[:1], MAG["low"])})
    ops = [(fn, ph, T) for fn in ("Cp", "H", "S", "G", "fn-H") for ph in ("S", "L") for T in (400.0, 700.0, 1500.0)]
    fresh = {}
    for fn, ph, T in ops:
        c = t.Compound(cpdata.dictionary(ref))
        fresh[fn, ph, T] = getattr(c, fn[-1] if fn[0] == "f" else fn)(ph, T)
    c = t.Compound(cpdata.dictionary(ref))
    t.compounds["FeO"] = c
    for n in range(depth):
        for rest in itertools.product(ops, repeat=n):
            hist = (ops[first],) + rest
            case = dict(history=[list(h) for h in hist])
            for fn, ph, T in hist:
                sub.step()
                with sub.guard("history", case):
                    if fn == "fn-H":
                        got = t.H("FeO[%s]" % ph, T - 273.15, 2.0) * 3.6e6 * ref.molar_mass / 2.0
                    else:
                        got = getattr(c, fn)(ph, T)
                    sub.expect(core.close(got, fresh[fn, ph, T], 1e-9), "history/" + fn, "%r: expected %r, observed %r" % (hist, fresh[fn, ph, T], got), case)
            sub.state(hist)
            sub.trace(case)


def number_kinds(sub, cs):
    """Temperatures and masses given as integers and numpy numbers."""
    t = tc()
    t.load_data_auxi()
    from mc import kinds
    f, ph = cs
    Ts = (-10, 0, 25, 400, 1000, 4000)
    for fn in ("Cp", "H", "S", "G"):
        most = [max(abs(v) for v in vs) for vs in ([getattr(t, fn)("%s[%s]" % (f, ph), float(T), 3.0) for T in Ts], [getattr(t.compounds[f], fn)(ph, T + 300.0) for T in Ts])]
        for T in Ts:
            kinds.same(sub, "numbers/%s(%s[%s])" % (fn, f, ph), lambda T, m: getattr(t, fn)("%s[%s]" % (f, ph), T, m), (T, 3), scale=most[0])
            kinds.same(sub, "numbers/compound-%s(%s[%s])" % (fn, f, ph), lambda T: getattr(t.compounds[f], fn)(ph, T), (T + 300,), scale=most[1])


def run(chk):
    q = chk.quick
    coarse = 25.0 if q else 6.25
    items = [("rao", f, coarse) for f in cpdata.shipped("rao")] + [("nist", f, coarse) for f in cpdata.shipped("nist")]
    chk.parallel(shipped, items)
    syn = []
    for n in range(1, 4 if q else 5):
        kinds = [k for k in TERMS if k not in FRACTIONAL] if n == 2 else list(TERMS) if n == 1 else ["const", "full", "inv", "root"] if n == 3 else ["lin", "full", "inv", "root"]
        for ks in itertools.product(kinds, repeat=n):
            if not any(TERMS[k] for k in ks):
                continue
            for mode in ("sorted", "reversed", "int"):
                syn.append((ks, "", mode))
            if n <= 2:
                for mag in ("bcc", "fcc", "low"):
                    if q and n == 2 and len(set(ks)) == 1:
                        continue
                    syn.append((ks, mag, "sorted"))
    for a, b in itertools.product(FRACTIONAL, ("const", "full", "inv", "root", "-0.8", "0.1")):
        syn += [((a, b), "", "sorted"), ((b, a), "", "reversed")]
    chk.parallel(synthetic, syn)
    phases = [(f, p) for f, r in sorted(cpdata.shipped("rao").items()) for p in sorted(r.phases)]
    chk.parallel(number_kinds, phases[::3] if q else phases)
    depth = 2 if q else 3
    chk.parallel(histories, [(i, depth) for i in range(30)])
    chk.bounds = dict(shipped_phases=115 + 53, grid_K=coarse, boundary_offsets=[0, 1e-9, 1e-3, 1.0], masses=list(MASSES),
                      synthetic_phases=len(syn), synthetic_ranges=3 if q else 4, history_depth=depth)
    chk.assumptions = ["a phase whose first range does not start at 298.15 K is integrated from the start of its first range, where its reference values hold",
                       "at a range boundary the heat capacity of either range is accepted",
                       "for magnetic phases differences of H and S and the high-temperature limit are judged, not the absolute value at the reference temperature"]
