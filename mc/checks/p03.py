"""P03: slag, coal and data-set based models.

Every slag of up to three (four) components on a grid of fractions and temperatures against the
correlations written down independently (scale, order and entry point must not matter); coal models
on a composition grid against the correlation and the quadrature of the heat capacity; every data
set of a bounded family fitted by a polynomial model, evaluated, written and read back.
"""
import csv, itertools, math, os, shutil, tempfile
from mc import core, cpdata, formula

R = 8.31446261815324


def slags():
    from auxi.tools.materialphysicalproperties import slags as s
    return s


def mass_of(f):
    from auxi.tools.chemistry import stoichiometry
    return sum(n * stoichiometry.molar_mass(e) for e, n in formula.atoms(f).items())


MODIFIERS = {"CaO": 1, "MgO": 1, "Na2O": 1, "K2O": 1, "CaF2": 3, "FeO": 1, "MnO": 1, "TiO2": 2, "ZrO2": 2}
AMPHOTERIC = ("Al2O3", "Fe2O3", "B2O3")
FORMERS = ("SiO2", "P2O5")


def urbain(x, T):
    """Viscosity [Pa.s] and B."""
    tot = sum(x.values())
    x = {k: v / tot for k, v in x.items()}
    g = sum(x.get(c, 0) for c in FORMERS)
    m = sum(f * x.get(c, 0) for c, f in MODIFIERS.items())
    a = sum(x.get(c, 0) for c in AMPHOTERIC)
    n = 1 + sum(x.get(c, 0) for c in ("CaF2", "Fe2O3", "TiO2", "ZrO2"))
    g, m, a = g / n, m / n, a / n
    if m + a == 0:
        return None, None
    al = m / (m + a)
    b = (13.8 + 39.9355 * al - 44.049 * al ** 2 + (30.481 - 117.1505 * al + 129.9978 * al ** 2) * g
         + (-40.9429 + 234.0846 * al - 300.04 * al ** 2) * g ** 2 + (60.7619 - 153.9276 * al + 211.1616 * al ** 2) * g ** 3)
    return 0.1 * math.exp(-0.2693 * b - 11.6725) * T * math.exp(1000 * b / T), 1000 * b


def riboud(x, T):
    x = dict(x)
    for two, one in (("P2O5", "PO2.5"), ("Fe2O3", "FeO1.5"), ("B2O3", "BO1.5")):
        if two in x:
            x[one] = 2 * x.pop(two)
    groups = [("SiO2", "PO2.5", "TiO2", "ZrO2"), ("CaO", "MgO", "FeO1.5", "FeO", "MnO", "BO1.5"), ("Al2O3",), ("CaF2",), ("Na2O", "K2O")]
    tot = sum(x.get(c, 0) for g in groups for c in g)
    if not tot:
        return None, None
    _, x2, x3, x4, x5 = [sum(x.get(c, 0) for c in g) / tot for g in groups]
    b = 31140 - 23896 * x2 - 46356 * x4 - 39159 * x5 + 68833 * x3
    return 0.1 * math.exp(-17.51 + 1.73 * x2 + 5.82 * x4 + 7.02 * x5 - 33.76 * x3) * T * math.exp(b / T), b


def slag(sub, item):
    comps, fractions, Ts = item
    s = slags()
    pairs = (("Urbain", s.UrbainViscosityTx(), s.UrbainViscosityTy(), urbain), ("Riboud", s.RiboudViscosityTx(), s.RiboudViscosityTy(), riboud))
    for fr in itertools.product(fractions, repeat=len(comps)):
        x = {c: f for c, f in zip(comps, fr)}
        if not sum(fr):
            continue
        tot = sum(fr)
        y = {c: f / tot * mass_of(c) for c, f in x.items()}
        for name, tx, ty, ref in pairs:
            last = None
            for T in Ts:
                want, B = ref(x, T)
                case = dict(model=name, x=x, T=T)
                if want is None:
                    continue
                with sub.guard("slag/" + name, case):
                    sub.step(2)
                    given = dict(x)
                    v = tx(T=T, x=given)
                    sub.expect(core.close(v, want, 1e-9, 0), "value/" + name, "%r at %r K: %r, correlation %r" % (x, T, v, want), case)
                    sub.expect(list(given.items()) == list(x.items()), "input/" + name, "became %r" % given, case)
                    w = ty(T=T, y=y)
                    sub.expect(core.close(w, want, 1e-8, 0), "mass-entry/" + name, "mass fractions: %r, correlation %r" % (w, want), case)
                    if last is not None and B > T:
                        sub.expect(v < last, "decreasing/" + name, "%r after %r" % (v, last), case)
                    last = v
                    for perm in itertools.permutations(comps):
                        for k in (1.0, 100.0 / tot):
                            sub.step()
                            u = tx(T=T, x={c: x[c] * k for c in perm})
                            sub.expect(core.close(u, v, 1e-11, 0), "order-scale/" + name, "order %r scale %r: %r, otherwise %r" % (perm, k, u, v), case)
                        if T == Ts[0]:
                            u = ty(T=T, y={c: y[c] * 3.7 for c in perm})
                            sub.expect(core.close(u, w, 1e-10, 0), "order-scale-y/" + name, "%r, otherwise %r" % (u, w), case)
                sub.state((name, tuple(x.items()), T))
                sub.trace(case)
            sub.outcome("%s components=%d" % (name, len(comps)))


MM = {e: formula.ATOMIC[e] for e in "CHONS"}


def coal(sub, item):
    from auxi.tools.materialphysicalproperties import coals
    n, Ts = item
    cp, h = coals.DafCpTy(), coals.DafHTy()
    for ks in itertools.product(range(n + 1), repeat=5):
        if sum(ks) != n:
            continue
        ys = {"y_" + e: k / n for e, k in zip("CHONS", ks)}
        a = 1 / sum(ys["y_" + e] / MM[e] for e in "CHONS") / 1000
        prev = None
        for T in Ts:
            case = dict(T=T, **ys)
            with sub.guard("coal", case):
                sub.step(2)
                g1 = lambda z: z * z * math.exp(z) / (math.exp(z) - 1) ** 2
                g0 = lambda z: 1 / math.expm1(z)
                wc = R / a * (g1(380 / T) + 2 * g1(1800 / T))
                wh = R / a * (380 * g0(380 / T) + 3600 * g0(1800 / T))
                c, e = cp(T=T, **ys), h(T=T, **ys)
                sub.expect(core.close(c, wc, 1e-4, 0), "coal/Cp", "Cp %r, correlation %r" % (c, wc), case)
                sub.expect(core.close(e, wh, 1e-4, 0), "coal/H", "H %r, correlation %r" % (e, wh), case)
                # the limit of Dulong and Petit
                sub.expect(0 < c < 3.0 * R / a * 1.0001, "coal/limit", "%r" % c, case)
                if prev:
                    import numpy as np
                    quad = cpdata.gauss(lambda t: np.array([cp(T=float(u), **ys) for u in t]), prev[0], T)
                    sub.expect(core.close(e - prev[1], quad, 1e-7, 1e-6), "coal/integral", "H rises %r, integral %r" % (e - prev[1], quad), case)
                prev = (T, e)
            sub.state((ks, T))
            sub.trace(case)
        sub.outcome("coal")


COEFS = {0: [(5.0,), (-3.25,)], 1: [(2.5e-3, 1.5), (-4.0, 9000.0)], 2: [(1e-5, -0.02, 12.0), (-2e-3, 4.0, -100.0)],
         3: [(1e-8, -2e-5, 0.015, 4.0)], 4: [(1e-10, -2e-7, 1e-4, 0.05, 7.0)]}
GRIDS = {"even": [300.0, 400.0, 500.0, 600.0, 700.0, 800.0], "uneven": [273.16, 280.0, 310.5, 500.0, 999.0, 1200.25],
         "down": [900.0, 750.0, 600.0, 450.0, 300.0, 150.0], "mixed": [500.0, 100.0, 900.0, 300.0, 700.0, 1100.0], "int": [300, 350, 425, 500, 550, 625]}


def poly(c, T):
    v = 0.0
    for k in c:
        v = v * T + k
    return v


def write_set(path, Ts, cols, text):
    with open(path, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow(["Name", text["material"]])
        w.writerow(["Description", text["description"]])
        w.writerow(["Reference", text["reference"]])
        w.writerow(["Temperature"] + [c[1] for c in cols])
        w.writerow(["T"] + [c[2] for c in cols])
        w.writerow(["K"] + [c[3] for c in cols])
        w.writerow(["T"] + [c[0] for c in cols])
        for T in Ts:
            w.writerow([repr(T)] + [repr(poly(c[4], T)) for c in cols])


def fits(sub, item):
    from auxi.tools.materialphysicalproperties.core import DataSet
    from auxi.tools.materialphysicalproperties.polynomial import PolynomialModelT
    grid, degree = item
    Ts = GRIDS[grid]
    d = tempfile.mkdtemp(dir=sub.scratch)
    text = dict(material="Steam, wet", description="Made up, with \"quotes\" and commas.", reference="smith2006")
    try:
        for c0, pos, extra in itertools.product(COEFS[degree], range(3), (0, 1)):
            cols = [("a", "Density", "\\rho", "kg/m3", (0.25,)), ("b", "Heat Capacity", "C_p", "J/kg/K", (-2e-4, 3.0))]
            cols.insert(pos, ("rho", "Some Property", "\\phi_{x}", "m2/s", c0))
            case = dict(grid=grid, degree=degree + extra, coefficients=list(c0), column=pos)
            path = os.path.join(d, "dataset-x.csv")
            write_set(path, Ts, cols, text)
            with sub.guard("fit", case):
                sub.step(3)
                ds = DataSet(path)
                sub.expect((ds.name, ds.material, ds.description, ds.reference) == ("dataset-x.csv", text["material"], text["description"], text["reference"]),
                           "dataset/header", repr((ds.name, ds.material, ds.description, ds.reference)), case)
                syms = ["T"] + [c[0] for c in cols]
                sub.expect(list(ds.col_symbols) == syms and list(ds.col_units) == ["K"] + [c[3] for c in cols]
                           and list(ds.col_names) == ["Temperature"] + [c[1] for c in cols]
                           and list(ds.col_display_symbols) == ["T"] + [c[2] for c in cols], "dataset/columns", repr(ds.col_symbols), case)
                for c in cols:
                    sub.expect(core.allclose(ds.data[c[0]].tolist(), [poly(c[4], T) for T in Ts], 1e-12), "dataset/data", repr(ds.data[c[0]].tolist()), case)
                    sub.expect(ds.names_dict[c[0]] == c[1] and ds.display_symbols_dict[c[0]] == c[2] and ds.units_dict[c[0]] == c[3],
                               "dataset/dicts", repr((ds.names_dict, ds.units_dict)), case)
                before = ds.data.copy()
                m = PolynomialModelT.create(ds, "rho", degree + extra)
                sub.expect(before.equals(ds.data), "fit/input", "fitting changed the data set", case)
                other = PolynomialModelT.create(ds, "b", 1)
                # a model of other data, created later, inside and beyond this one's range
                Ts2 = [T + 130.25 for T in Ts[::-1]] if pos % 2 else [min(Ts) + 20.0 + 3.5 * i for i in range(5)]
                write_set(os.path.join(d, "dataset-y.csv"), Ts2, cols[::-1], dict(text, material="Other"))
                later = PolynomialModelT.create(DataSet(os.path.join(d, "dataset-y.csv")), "b", 1)
                sub.expect((m.material, m.property, m.symbol, m.display_symbol, m.units, list(m.datasets)) ==
                           (text["material"], "Some Property", "rho", "\\phi_{x}", "m2/s", ["dataset-x.csv"]), "fit/description",
                           repr((m.material, m.property, m.symbol, m.display_symbol, m.units, m.datasets)), case)
                m.write(os.path.join(d, "m.json"))
                back = PolynomialModelT.read(os.path.join(d, "m.json"))
                again = os.path.join(d, "m2.json")
                back.write(again)
                third = PolynomialModelT.read(again)
                lo, hi = float(min(Ts)), float(max(Ts))
                scale = max(abs(poly(c0, T)) for T in Ts)
                for which, mm, a, b in (("model", later, min(Ts2), max(Ts2)), ("model", other, lo, hi)):
                    for T, ok in ((a, True), (b, True), (a - 1e-6, False), (b + 1e-6, False), (a + 0.4 * (b - a), True)):
                        sub.step()
                        try:
                            v = mm(T=float(T))
                        except ValueError:
                            sub.expect(not ok, "fit/later-range", "%r K rejected, data from %r to %r" % (T, a, b), case)
                            continue
                        sub.expect(ok and core.close(v, -2e-4 * T + 3.0, 1e-7), "fit/later", "%r K: %r, data from %r to %r" % (T, v, a, b), case)
                for which, mm in (("model", m), ("read", back), ("read twice", third)):
                    for T in sorted(set(map(float, Ts)) | {lo + 0.37 * (hi - lo), lo + 0.81 * (hi - lo)}):
                        sub.step()
                        v = mm(T=T)
                        sub.expect(core.close(v, poly(c0, T), 1e-6, 1e-7 * scale), "fit/value", "%s at %r K: %r, data %r" % (which, T, v, poly(c0, T)), case)
                        sub.expect(v == m(T=T), "fit/saved", "%s at %r K: %r, before saving %r" % (which, T, v, m(T=T)), case)
                    for T in (lo - 1e-6, lo - 50.0, hi + 1e-6, hi + 50.0, -1.0, 1e6):
                        sub.step()
                        try:
                            v = mm(T=T)
                        except ValueError:
                            sub.outcome("out of range")
                            continue
                        sub.fail("fit/range", "%s accepts %r K outside the data (%r to %r)" % (which, T, lo, hi), case)
                sub.expect(core.close(other(T=400.0), -2e-4 * 400 + 3.0, 1e-8), "fit/other", "%r" % other(T=400.0), case)
            sub.state(repr(case))
            sub.outcome("fit degree=%d" % degree)
            sub.trace(case)
    finally:
        shutil.rmtree(d)


DTEXTS = ("", "Water", "a, b", "the \"x\" one", "\u03c1 \u2013 \u65e5\u672c", "T", "1.50", " lead and trail ", "# no comment", "x" * 300, "it's; here", "NA", "None", "two\nlines")
DNUMS = ("0", "1", "-1.5", "300", "300.0", "3.0e2", "1E-12", "6.02214076e+23", "0.1", "-0.0", "123456789.123456789", "1e-300", "0.30000000000000004", "+7")


def datasets(sub, item):
    """Data set files written from data: texts, columns, rows, numbers and ways of writing a file."""
    from auxi.tools.materialphysicalproperties.core import DataSet
    kind, arg = item
    d = tempfile.mkdtemp(dir=sub.scratch)
    path = os.path.join(d, "Dataset 1.csv")

    def one(head, cols, rows, nl="\n", quote=csv.QUOTE_MINIMAL, tail="", key="dataset"):
        case = dict(head=head, cols=cols, rows=rows[:3], n=len(rows), nl=nl, quote=quote, tail=tail)
        with sub.guard(key, case):
            with open(path, "w", newline="", encoding="utf-8") as f:
                w = csv.writer(f, lineterminator=nl, quoting=quote)
                for n, t in zip(("Name", "Description", "Reference"), head):
                    w.writerow([n, t])
                for j in (1, 2, 3, 0):
                    w.writerow([c[j] for c in cols])
                for r in rows:
                    w.writerow(r)
            raw = open(path, "rb").read()
            raw = raw[:-len(nl)] if tail is None else raw + tail.encode()
            with open(path, "wb") as f:
                f.write(raw)
            ds = DataSet(path)
            sub.step()
            sub.expect((ds.name, ds.material, ds.description, ds.reference) == ("Dataset 1.csv",) + tuple(head), key + "/header", repr((ds.name, ds.material, ds.description, ds.reference)), case)
            got = [list(x) for x in (ds.col_symbols, ds.col_names, ds.col_display_symbols, ds.col_units)]
            sub.expect(got == [[c[j] for c in cols] for j in range(4)], key + "/columns", repr(got), case)
            sub.expect([str(c) for c in ds.data.columns] == [c[0] for c in cols] and len(ds.data) == len(rows), key + "/shape", "%r, %d rows" % (list(ds.data.columns), len(ds.data)), case)
            for j, c in enumerate(cols):
                v = ds.data[c[0]].tolist()
                sub.expect(core.allclose([float(x) for x in v], [float(r[j]) for r in rows], 1e-14), key + "/values", "%s: %r" % (c[0], v[:5]), case)
                sub.expect((ds.names_dict[c[0]], ds.display_symbols_dict[c[0]], ds.units_dict[c[0]]) == c[1:], key + "/dicts", repr(c), case)
            sub.expect(open(path, "rb").read() == raw and os.listdir(d) == ["Dataset 1.csv"], key + "/file", "reading changed the file", case)
            sub.state(raw)
            sub.trace(case)

    tcol = ("T", "Temperature", "T", "K")
    full = [tcol, ("rho", "Density", "\\rho", "kg/m3"), ("Cp", "Heat Capacity", "C_p", "J/kg/K"), ("mu", "Dynamic Viscosity", "\\mu", "Pa s"), ("x_a", "", "", "")]
    try:
        if kind == "texts":
            for a, b in itertools.product(DTEXTS, repeat=2):
                if "\n" in b:  # the table is found by the number of lines above it
                    b = "a"
                one((a.replace("\n", " "), b, arg.replace("\n", " ")), full[:3], [["300.0", "1.5", "2"]])
            for a in DTEXTS:
                if "\n" not in a and a != "T":
                    one(("m", "d", "r"), [tcol, ("q", a, arg.replace("\n", " "), "u"), ("r", "n", "s", a)], [["300.0", "1.5", "2"], ["1", "2", "3"]])
        elif kind == "layout":
            nl, quote = arg
            for n, m, tail in itertools.product(range(1, 6), (1, 2, 3, 11, 400), ("", None, nl, nl + nl)):
                one(("m", "d, e", "r"), full[:n], [[repr(100.0 + 7.25 * i * (j + 1)) for j in range(n)] for i in range(m)], nl, quote, tail)
            for p in itertools.permutations(full[:4]):
                one(("m", "d", "r"), list(p), [["1.5", "2.5", "3.5", "4.5"], ["-1", "0", "1", "2"]], nl, quote)
        else:
            for r in itertools.product(DNUMS, repeat=2):
                one(("m", "d", "r"), full[:3], [[arg, r[0], r[1]], ["1", arg, r[0]]])
                one(("m", "d", "r"), full[:2], [[arg, r[0]], ["1", r[1]], [r[0], arg]])
        sub.outcome("data set " + kind)
    finally:
        shutil.rmtree(d)


def templates(sub, _):
    from auxi.tools.materialphysicalproperties.core import DataSet
    d = tempfile.mkdtemp(dir=sub.scratch)
    try:
        for name in ("Water", "CO2", "Wet Steam", "a,b"):
            with sub.guard("template", name):
                sub.step()
                DataSet.create_template(name, d)
                ds = DataSet(os.path.join(d, "dataset-%s.csv" % name.lower()))
                sub.expect(ds.material == name and len(ds.data["T"]) == 10 and ds.data["T"].tolist() == [100.0 + 50 * i for i in range(10)]
                           and len(ds.col_symbols) == 4 and ds.col_symbols[0] == "T", "template", str(ds), name)
                sub.expect(name in str(ds), "template/str", str(ds), name)
            sub.state(name)
            sub.trace(name)
    finally:
        shutil.rmtree(d)


def run(chk):
    q = chk.quick
    everything = list(FORMERS) + list(MODIFIERS) + list(AMPHOTERIC)
    core_set = ["SiO2", "P2O5", "CaO", "CaF2", "TiO2", "Al2O3", "Fe2O3", "B2O3", "Na2O", "FeO"]
    Ts = [1273.15, 1373.15, 1473.15, 1573.15, 1673.15, 1773.15, 1873.15, 1973.15] if q else [1273.15 + 50 * i for i in range(16)]
    items = [((c,), (1.0, 0.5), Ts) for c in everything]
    items += [(p, (0.0, 0.2, 0.5, 1.0), Ts) for p in itertools.combinations(everything, 2)]
    items += [(p, (0.1, 0.4, 1.0), Ts[:2] if q else Ts[::3]) for p in itertools.combinations(core_set if q else everything, 3)]
    if not q:
        items += [(p, (0.2, 1.0), Ts[::8]) for p in itertools.combinations(core_set, 4)]
    chk.parallel(slag, items)
    # traces of everything
    trace = (1.0, 9e-4, 3e-6)
    items = [((a, b), trace, Ts[:2]) for a, b in itertools.permutations(everything, 2)]
    items += [(("SiO2", "CaO", c), trace, Ts[:1]) for c in everything if c not in ("SiO2", "CaO")]
    chk.parallel(slag, items)
    chk.parallel(coal, [(4 if q else 8, [200.0, 298.15, 450.0, 700.0, 1073.15, 1500.0])])
    chk.parallel(fits, [(g, k) for g in GRIDS for k in COEFS])
    chk.parallel(templates, [0])
    lay = list(itertools.product(("\n", "\r\n"), (csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_NONNUMERIC)))
    chk.parallel(datasets, [("texts", t) for t in DTEXTS] + [("layout", a) for a in lay] + [("numbers", n) for n in DNUMS])
    chk.bounds = dict(slag_components=3 if q else 4, fractions=[0.0, 3e-6, 9e-4, 0.1, 0.2, 0.4, 0.5, 1.0], temperatures=Ts, coal_grid=4 if q else 8,
                      data_sets=len(GRIDS) * sum(len(v) for v in COEFS.values()) * 6, degree=4,
                      data_set_files="%d texts in every pair, %d numbers in every triple, 1-5 columns, 1-400 rows, line ends, quoting, end of file" % (len(DTEXTS), len(DNUMS)))
    chk.assumptions = ["the correlation is the one cited by the module with its coefficients", "pure network formers (no modifier, no amphoteric oxide) are outside Urbain's correlation",
                       "viscosity decreases with temperature where the correlation's B exceeds T"]
