"""M01: material definition files and stored assays.

Part 1 enumerates definition files (number of components and assays, separators, padding,
incomplete and blank lines, number styles, custom properties) and compares the material read with
the generated table. Part 2 explores every history of adding assays (good and bad), creating
packages and changing the arrays that went in and came out.
"""
import itertools, os
import numpy as np
from mc import core, explore

KINDS = ("chem", "psd", "slurry", "thermo")
COMPS = dict(chem=["Fe2O3", "SiO2[S1]", "CaCO3", "C"], psd=["100.0E-3", "4.8E-3", "75.0E-6", "0.0E0"],
             slurry=["100.0E-3", "4.8E-3", "75.0E-6", "0.0E0"],
             thermo=["SiO2[S]", "Fe2O3[Salpha]", "FeO[S]", "CaO[S]"])
ELEMENTS = dict(chem=["Fe O", "O Si", "C Ca O", "C"], thermo=["O Si", "Fe O", "Fe O", "Ca O"])
NAMES = ["Feed", "B", "AssayC"]
VALUES = [[0.2, 0.5, 0.125], [0.0, 1.0, 0.3], [0.8, 0.0, 0.25], [0.05, 2.0, 0.33]]
RHO = [3.0, 4.5, 2.25]
H2O = [0.0, 0.6, 0.25]
STYLE = dict(dec=lambda v: "%.5f" % v, exp=lambda v: "%.3E" % v, many=lambda v: "%.12f" % v, short=lambda v: repr(v).lstrip("0") if 0 < v < 1 else "%g" % v)
SEP = dict(one=" ", many="    ", tab="\t", mixed=" \t  ")
PAD = dict(none=("", ""), both=("  ", " \t"))
NOISE = ("none", "end", "mid", "partial", "crlf", "nonl")


def mod(kind):
    import importlib
    return importlib.import_module("auxi.modelling.process.materials." + kind)


def lay_out(kind, nc, na, sep, pad, noise, style, custom):
    sep, (lead, trail) = SEP[sep], PAD[pad]
    names = NAMES[:na]
    rows = [["Compound" if kind in ("chem", "thermo") else "SizeClass"] + names]
    if kind == "slurry":
        rows += [["solid_density"] + [STYLE[style](v) for v in RHO[:na]], ["H2O"] + [STYLE[style](v) for v in H2O[:na]]]
    top = len(rows)
    for i in range(nc):
        rows.append([COMPS[kind][i]] + [STYLE[style](v) for v in VALUES[i][:na]])
    lines = [lead + sep.join(r) + trail for r in rows]
    if noise == "mid":
        lines.insert(top + (nc > 1), "")
    if noise == "partial" and na:
        lines.insert(top + (nc > 1), COMPS[kind][3])
    if custom:
        lines.append("#" if custom == "hash" else "# custom properties")
        for k, p in enumerate(("Price[USD/kg]", "Grade")):
            lines.append(lead + sep.join([p] + [STYLE[style](1.25 + k + j) for j in range(na)]) + trail)
    if noise == "end":
        lines += ["", "  "]
    nl = "\r\n" if noise == "crlf" else "\n"
    return nl.join(lines) + ("" if noise == "nonl" else nl)


def load(kind, path):
    return mod(kind).Material("m", path, "the description")


def assays_of(kind, m):
    if kind == "thermo":
        return m.raw_assays, m.converted_assays
    return (m.assays,)


def comps_of(kind, m):
    return m.compounds if kind in ("chem", "thermo") else m.size_classes


def masses_of(kind, p):
    if kind == "thermo":
        return [float(p.get_compound_mass(c)) for c in p.material.compounds]
    return [float(x) for x in (p.compound_masses if kind == "chem" else p.size_class_masses)]


def expected_masses(kind, assay, mass, normalise, water=0.0):
    t = sum(assay) if normalise else 1.0
    if kind == "slurry" and t == 0:
        t = 1.0
    return [mass * (1 - water) * x / t for x in assay]


def check_package(chk, kind, m, name, assay, key, case, water=0.0, rho=None):
    for mass, norm in itertools.product((0.0, 1.0, 123.456), (True, False)):
        if norm and sum(assay) == 0 and kind != "slurry":
            continue
        chk.step()
        c = dict(case=case, assay=name, mass=mass, normalise=norm)
        p = m.create_package(name, mass, normalise=norm)
        want = expected_masses(kind, assay, mass, norm, water)
        chk.expect(core.allclose(masses_of(kind, p), want), key + "/package",
                   lambda: "package masses %r instead of %r" % (masses_of(kind, p), want), c)
        total = p.mass if kind == "thermo" else p.get_mass()
        chk.expect(core.close(total, sum(want) + mass * water), key + "/package-mass",
                   lambda: "package mass %r" % total, c)
        if norm and sum(assay) > 0:
            chk.expect(core.close(total, mass), key + "/package-mass-requested", lambda: "package mass %r" % total, c)
        if kind == "slurry":
            chk.expect(core.close(p.H2O_mass, mass * water), key + "/package-water", lambda: "water %r" % p.H2O_mass, c)
            chk.expect(core.close(p.solid_density, rho), key + "/package-density", lambda: "%r" % p.solid_density, c)
        if kind == "thermo":
            chk.expect((p.P, p.T) == (1.0, 25.0), key + "/package-state", "P,T %r" % ((p.P, p.T),), c)
            s = m.create_stream(name, mass, 0.5, 300.0, norm)
            mfrs = [s.get_compound_mfr(x) for x in m.compounds]
            chk.expect(core.allclose(mfrs, want), key + "/stream",
                       lambda: "stream %r instead of %r" % (mfrs, want), c)
            chk.expect(core.close(s.mfr, sum(want)) and (s.P, s.T) == (0.5, 300.0), key + "/stream-state",
                       lambda: "stream mfr %r P %r T %r" % (s.mfr, s.P, s.T), c)
            p = m.create_package(name, mass, 0.5, 300.0, norm)
            chk.expect((p.P, p.T) == (0.5, 300.0), key + "/package-state", "P,T %r" % ((p.P, p.T),), c)


def check_material(chk, kind, m, nc, na, key, case, exact=None, custom=None):
    comps = COMPS[kind][:nc] if kind in ("chem", "thermo") else [float(x) for x in COMPS[kind][:nc]]
    if not chk.expect(list(comps_of(kind, m)) == comps, key + "/components",
                      lambda: "components %r instead of %r" % (comps_of(kind, m), comps), case):
        return
    chk.expect(m.name == "m" and m.description == "the description", key + "/name",
               lambda: "name %r description %r" % (m.name, m.description), case)
    cnt = m.compound_count if kind in ("chem", "thermo") else m.size_class_count
    chk.expect(cnt == nc, key + "/count", "component count %r" % cnt, case)
    ix = m.get_compound_index if kind in ("chem", "thermo") else m.get_size_class_index
    chk.expect([ix(c) for c in comps] == list(range(nc)), key + "/index", "wrong component index", case)
    chk.expect(len(m.create_empty_assay()) == nc and not any(m.create_empty_assay()), key + "/empty-assay",
               "empty assay %r" % (m.create_empty_assay(),), case)
    if kind in ELEMENTS:
        want = sorted(set(" ".join(ELEMENTS[kind][:nc]).split()))
        chk.expect(list(m.elements) == want, key + "/elements", lambda: "elements %r" % (m.elements,), case)
    e = m.create_package()
    chk.expect(not any(masses_of(kind, e)) and len(masses_of(kind, e)) == nc, key + "/empty-package",
               lambda: "package without assay holds %r" % masses_of(kind, e), case)
    for d in assays_of(kind, m):
        chk.expect(sorted(d) == sorted(NAMES[:na]), key + "/assays", lambda: "assays %r" % sorted(d), case)
        for j, n in enumerate(NAMES[:na]):
            want = [VALUES[i][j] for i in range(nc)]
            chk.expect(core.allclose(d.get(n, ()), want, 1e-12, 0), key + "/assay",
                       lambda: "assay %s is %r instead of %r" % (n, d.get(n), want), case)
            chk.expect(core.close(m.get_assay_total(n), sum(want)), key + "/assay-total",
                       lambda: "total of %s is %r" % (n, m.get_assay_total(n)), case)
    for j, n in enumerate(NAMES[:na]):
        w, r = (H2O[j], RHO[j]) if kind == "slurry" else (0.0, None)
        if kind == "slurry":
            chk.expect(m.solid_densities.get(n) == r and m.H2O_fractions.get(n) == w, key + "/slurry",
                       lambda: "density %r water %r" % (m.solid_densities, m.H2O_fractions), case)
        if kind == "thermo":
            want = {p: 1.25 + k + j for k, p in enumerate(("Price[USD/kg]", "Grade"))} if custom else {}
            chk.expect(m.assay_custom_properties[n] == want, key + "/custom",
                       lambda: "custom properties %r instead of %r" % (m.assay_custom_properties[n], want), case)
        check_package(chk, kind, m, n, [VALUES[i][j] for i in range(nc)], key, dict(case=case), w, r)
    str(m)


def files(chk, item):
    kind, nc, na = item
    for sep, pad, noise, style in itertools.product(SEP, PAD, NOISE, STYLE):
        for custom in ((None, "hash", "comment") if kind == "thermo" else (None,)):
            if noise == "partial" and not na:
                continue
            text = lay_out(kind, nc, na, sep, pad, noise, style, custom)
            case = dict(kind=kind, text=text)
            key = "file:%s:%s%s" % (kind, noise, ":custom" if custom else "")
            with chk.guard(key, case):
                path = os.path.join(chk.scratch, "m%d.txt" % os.getpid())
                with open(path, "w", newline="") as f:
                    f.write(text)
                chk.step()
                m = load(kind, path)
                os.remove(path)
                check_material(chk, kind, m, nc, na, key, case, custom=custom)
                chk.state((kind, text))
                chk.trace(case)
                chk.outcome(kind + "/" + noise)


NUMBERS = ["2.5E-7", "4.8123456E-3", "0.000001234567", "1e-12", ".5", "10.", "1.5e+2", "123456.789", "1E3",
           "0.1234567890123456", "7", "3.3333333333333335E-1", "1.0E-30", "99999999.99999999"]


def numbers(chk, kind):
    """Every way of writing a number, as size class and as amount, is read as that number."""
    for i, j, text in itertools.product(range(3), range(2), NUMBERS):
        comps = list(COMPS[kind][:3])
        vals = [["%.3f" % v for v in VALUES[k][:2]] for k in range(3)]
        vals[i][j] = text
        if kind in ("psd", "slurry"):
            comps[i] = NUMBERS[(NUMBERS.index(text) + j + 1) % len(NUMBERS)]
        head = [["Compound" if kind in ("chem", "thermo") else "SizeClass"] + NAMES[:2]]
        rho, w = ["3.0", "4.5"], ["0.25", "0.125"]
        if kind == "slurry":
            if float(text) >= 1e-3:
                rho[j] = text
            if float(text) <= 1.0:
                w[j] = text
            head += [["solid_density"] + rho, ["H2O"] + w]
        lines = [" ".join(r) for r in head + [[c] + v for c, v in zip(comps, vals)]]
        case = dict(kind=kind, text=lines)
        key = "number:" + kind
        with chk.guard(key, case):
            path = os.path.join(chk.scratch, "n%d.txt" % os.getpid())
            with open(path, "w") as f:
                f.write("\n".join(lines) + "\n")
            chk.step()
            m = load(kind, path)
            os.remove(path)
            cs = comps if kind in ("chem", "thermo") else [float(c) for c in comps]
            chk.expect(list(comps_of(kind, m)) == cs, key + "/components",
                       lambda: "components %r instead of %r" % (comps_of(kind, m), cs), case)
            for jj, n in enumerate(NAMES[:2]):
                a = [float(v[jj]) for v in vals]
                for d in assays_of(kind, m):
                    chk.expect(core.allclose(d[n], a, 1e-12, 0), key + "/assay",
                               lambda: "assay %s is %r instead of %r" % (n, d[n], a), case)
                wf = float(w[jj]) if kind == "slurry" else 0.0
                if kind == "slurry":
                    chk.expect(core.close(m.solid_densities[n], float(rho[jj]), 1e-12, 0) and
                               core.close(m.H2O_fractions[n], wf, 1e-12, 0), key + "/slurry",
                               lambda: "density %r water %r" % (m.solid_densities, m.H2O_fractions), case)
                p = m.create_package(n, 5.0)
                want = expected_masses(kind, a, 5.0, True, wf)
                chk.expect(core.allclose(masses_of(kind, p), want, 1e-9, 0), key + "/package",
                           lambda: "package masses %r instead of %r" % (masses_of(kind, p), want), case)
                if kind in ("psd", "slurry"):
                    got = [p.get_size_class_mass(c) for c in cs]
                    chk.expect(core.allclose(got, want, 1e-9, 0), key + "/class-mass",
                               lambda: "masses per class %r instead of %r" % (got, want), case)
            chk.state(("number", kind, tuple(lines)))
            chk.trace(case)


def repo_files(chk):
    """The definition files shipped with the repository, read by an independent parser."""
    base = os.path.join(core.REPO, "auxi", "modelling", "process", "materials", "data")
    for fn in sorted(os.listdir(base)):
        kind = dict(chemmaterial="chem", psdmaterial="psd", psdslurrymaterial="slurry",
                    thermomaterial="thermo").get(fn.split(".")[0])
        if kind is None or not fn.endswith(".txt"):
            continue
        rows = [l.split() for l in open(os.path.join(base, fn))]
        cut = next((i for i, r in enumerate(rows) if r and r[0].startswith("#")), len(rows))
        names = rows[0][1:]
        body = [r for r in rows[1:cut] if len(r) == len(names) + 1]
        if kind == "slurry":
            body = body[2:]
        with chk.guard("shipped:" + fn, fn):
            chk.step()
            m = load(kind, os.path.join(base, fn))
            comps = [r[0] if kind in ("chem", "thermo") else float(r[0]) for r in body]
            chk.eq(list(comps_of(kind, m)), comps, "shipped:%s/components" % fn, fn)
            for d in assays_of(kind, m):
                for j, n in enumerate(names):
                    chk.expect(core.allclose(d[n], [float(r[j + 1]) for r in body], 1e-12, 0),
                               "shipped:%s/assay" % fn, "assay %s is %r" % (n, d[n]), fn)
            chk.trace(fn)


class Store:
    """Histories of adding assays, creating packages and changing arrays."""

    def __init__(self, chk, kind):
        self.kind = kind
        self.scratch = chk.scratch
        self.text = lay_out(kind, 3, 2, "one", "none", "none", "dec", "hash" if kind == "thermo" else None)

    def opname(self, op):
        return self.kind + ":" + op[0]

    def new(self):
        path = os.path.join(self.scratch, "s%d.txt" % os.getpid())
        with open(path, "w") as f:
            f.write(self.text)
        m = load(self.kind, path)
        os.remove(path)
        model = {n: ([VALUES[i][j] for i in range(3)], RHO[j], H2O[j]) for j, n in enumerate(NAMES[:2])}
        return dict(m=m, arr=[], pkg=[]), dict(assays=model, added=0, pkgs=0, mutated=0)

    def ops(self, model):
        for n in ("New", "Feed", "New2"):
            yield ("add", n, 0)
            yield ("add", n, 1)
        yield ("add_bad", "Other", "short")
        yield ("add_bad", "Other", "long")
        yield ("add_bad", "Other", "type")
        yield ("add_bad", "Feed", "short")
        if self.kind == "slurry":
            yield ("add_bad", "Other", "density")
            yield ("add_bad", "Other", "water")
            yield ("add_bad", "Feed", "water")
        for n in sorted(model["assays"]):
            yield ("package", n)
        yield ("package", None)
        for i in range(model["added"]):
            yield ("mutate", i)
        for i in range(model["pkgs"]):
            yield ("change", i)
        yield ("empty",)

    def family(self, op):
        return op[0].split("_")[0]

    def vec(self, x):
        return list(x) if self.kind == "chem" else np.array(x)

    def call(self, m, n, vec, rho=2.75, w=0.125):
        if self.kind == "slurry":
            return m.add_assay(n, rho, w, vec)
        return m.add_assay(n, vec)

    def apply(self, chk, impl, model, op, hist):
        m = impl["m"]
        k = op[0]
        if k == "add":
            a = [[0.5, 0.25, 0.125], [0.0, 0.3, 0.9]][op[2]]
            v = self.vec(a)
            rho = 2.75 + op[2]
            if op[1] in model["assays"]:
                try:
                    self.call(m, op[1], v, rho)
                except Exception:
                    chk.outcome("duplicate rejected")
                else:
                    chk.fail("store:%s/duplicate" % self.kind, "a second assay of the same name was accepted", hist)
            else:
                self.call(m, op[1], v, rho)
                model["assays"][op[1]] = (a, rho, 0.125)
                impl["arr"].append(v)
                model["added"] += 1
        elif k == "add_bad":
            good = [0.5, 0.25, 0.125]
            rho, w = 2.75, 0.125
            v = {"short": lambda: self.vec(good[:2]), "long": lambda: self.vec(good + [0.1]),
                 "type": lambda: (np.array(good) if self.kind == "chem" else list(good))}.get(op[2], lambda: self.vec(good))()
            if op[2] == "density":
                rho = "2.75"
            if op[2] == "water":
                w = None
            try:
                self.call(m, op[1], v, rho, w)
            except Exception:
                chk.outcome("bad assay rejected")
            else:
                chk.fail("store:%s/bad-accepted" % self.kind, "an invalid assay was accepted", hist)
        elif k == "package":
            p = m.create_package(op[1], 2.0)
            impl["pkg"].append(p)
            model["pkgs"] += 1
        elif k == "mutate":
            impl["arr"][op[1]][1] = 77.0
        elif k == "change":
            p = impl["pkg"][op[1]]
            if self.kind in ("chem", "psd", "slurry"):
                arr = p.compound_masses if self.kind == "chem" else p.size_class_masses
                p.extract(0.25 * p.get_mass())
                arr[0] = 55.0
            else:
                p.extract(0.25 * p.mass)
                p.extract((m.compounds[0], 0.5 * p.get_compound_mass(m.compounds[0])))
                p.T = 100.0
            p.clear()
        elif k == "empty":
            e = m.create_empty_assay()
            e[0] = 5.0
        return impl, model

    def check(self, chk, impl, model, hist):
        m = impl["m"]
        key = "store:%s:%s" % (self.kind, hist[-1][0] if hist else "init")
        for d in assays_of(self.kind, m):
            chk.expect(sorted(d) == sorted(model["assays"]), key + "/names", lambda: "assays %r" % sorted(d), hist)
            for n, (a, rho, w) in model["assays"].items():
                chk.expect(core.allclose(d.get(n, ()), a, 1e-12, 0), key + "/values",
                           lambda: "assay %s is %r instead of %r" % (n, d.get(n), a), hist)
        if self.kind == "slurry":
            for n, (a, rho, w) in model["assays"].items():
                chk.expect(m.solid_densities.get(n) == rho and m.H2O_fractions.get(n) == w, key + "/slurry",
                           lambda: "%s: density %r, water %r" % (n, m.solid_densities.get(n), m.H2O_fractions.get(n)), hist)
            chk.expect(sorted(m.solid_densities) == sorted(m.H2O_fractions) == sorted(model["assays"]),
                       key + "/slurry-names", lambda: "%r" % sorted(m.solid_densities), hist)
        chk.expect(not any(m.create_empty_assay()), key + "/empty", "the empty assay is not empty", hist)
        for n, (a, rho, w) in model["assays"].items():
            p = m.create_package(n, 2.0)
            want = expected_masses(self.kind, a, 2.0, True, w if self.kind == "slurry" else 0.0)
            chk.expect(core.allclose(masses_of(self.kind, p), want), key + "/package",
                       lambda: "package of %s holds %r instead of %r" % (n, masses_of(self.kind, p), want), hist)
        str(m)

    def canon(self, impl, model):
        return (self.kind, repr(sorted(model["assays"].items())), model["added"], model["pkgs"],
                repr([list(map(float, a)) for a in impl["arr"]]),
                repr([masses_of(self.kind, p) for p in impl["pkg"]]), explore.structure([impl["m"], impl["pkg"]]))


CHEM = ["SiO2[S1]", "SiO2[S2]", "SiO2", "Fe2O3[S1]", "FeO", "Fe", "Fe3O4", "CaO", "Ca", "CaCO3", "C", "CO", "CO2", "Co", "Cr2O3", "Cr", "CrO", "MgO", "MnO", "Al2O3", "TiO2", "V2O5",
        "P2O5", "K2O", "Na2O", "S", "SO2", "FeS", "FeS2", "H2O", "H2", "O2", "N2", "N", "Ni", "NiO", "Zn", "ZnO", "PbO", "Pb"]
SIZES = ["%.3fE-6" % x for x in (999999.0, 125000, 99999, 74999.5, 74999, 38000, 1001, 1000.5, 1000, 999.5, 999, 150.2, 150.1, 150, 75.1, 75, 74.9, 45, 38, 10.2, 10.1, 10, 9.9, 2.002,
                                2.001, 2, 1.999, 1.01, 1, 0.99, 0.5, 0.251, 0.25, 0.249, 0.1, 0.011, 0.01, 0.009, 0.001, 0)]
AWKWARD = ["A", "a", "AA", "A1", "A.1", "A-1", "A_1", "1", "01", "1.0", "H2O", "Fe", "Compound", "None", "nan", "a,b", "a;b", "\u00e9", "[x]", "'q'", "%s", "{}"]


def wide(chk, item):
    """Many components and many assays, named awkwardly, with amounts of every magnitude."""
    kind, nc = item
    all_ = dict(chem=CHEM, psd=SIZES, slurry=SIZES).get(kind)
    if kind == "thermo":
        from auxi.tools.chemistry import thermochemistry as th
        all_ = sorted("%s[%s]" % (c, p) for c in th.compounds for p in th.compounds[c].get_phase_list())[:40]
    for turn in range(3):
        # the same file with components and assay names in another order
        comps = (all_[turn * 13:] + all_[:turn * 13])[:nc]
        if kind in ("psd", "slurry"):
            comps = sorted(comps, key=lambda x: -float(x))
        names = AWKWARD[turn * 7:] + AWKWARD[:turn * 7]
        vals = [[float("%.9g" % (10.0 ** ((3 * i + 5 * j) % 14 - 8) * (1 + (7 * i + 3 * j) % 11 / 7.0))) for j in range(len(names))] for i in range(len(comps))]
        head = [["Compound" if kind in ("chem", "thermo") else "SizeClass"] + names]
        if kind == "slurry":
            head += [["solid_density"] + ["%r" % (1.5 + j / 8.0) for j in range(len(names))], ["H2O"] + ["%r" % (j / 32.0) for j in range(len(names))]]
        lines = [" ".join(r) for r in head + [[c] + ["%r" % x for x in v] for c, v in zip(comps, vals)]]
        case = dict(kind=kind, text=lines)
        key = "wide:" + kind
        with chk.guard(key, case):
            path = os.path.join(chk.scratch, "w%d.txt" % os.getpid())
            with open(path, "w") as f:
                f.write("\n".join(lines) + "\n")
            chk.step()
            m = load(kind, path)
            os.remove(path)
            cs = comps if kind in ("chem", "thermo") else [float(c) for c in comps]
            chk.expect(list(comps_of(kind, m)) == cs, key + "/components", lambda: "components %r instead of %r" % (comps_of(kind, m), cs), case)
            ix = m.get_compound_index if kind in ("chem", "thermo") else m.get_size_class_index
            chk.expect([ix(c) for c in cs] == list(range(len(cs))), key + "/index", lambda: "indices %r" % [ix(c) for c in cs], case)
            for d in assays_of(kind, m):
                chk.expect(sorted(d) == sorted(names), key + "/assays", lambda: "assays %r" % sorted(d), case)
            for j, n in enumerate(names):
                a = [v[j] for v in vals]
                for d in assays_of(kind, m):
                    chk.expect(core.allclose(d[n], a, 1e-12, 0), key + "/assay", lambda: "assay %s is %r instead of %r" % (n, d[n], a), case)
                chk.expect(core.close(m.get_assay_total(n), sum(a), 1e-12, 0), key + "/assay-total", lambda: "total of %s is %r" % (n, m.get_assay_total(n)), case)
                w = 0.0
                if kind == "slurry":
                    w = j / 32.0
                    chk.expect(m.solid_densities[n] == 1.5 + j / 8.0 and m.H2O_fractions[n] == w, key + "/slurry", lambda: "%s: %r %r" % (n, m.solid_densities[n], m.H2O_fractions[n]), case)
                for mass in (1.0, 1e-6, 3e7):
                    chk.step()
                    p = m.create_package(n, mass)
                    want = expected_masses(kind, a, mass, True, w)
                    got = masses_of(kind, p)
                    chk.expect(core.allclose(got, want, 1e-9, 0), key + "/package", lambda: "%s x %r: %r instead of %r" % (n, mass, got, want), case)
                    chk.expect(core.close(p.mass if kind == "thermo" else p.get_mass(), mass, 1e-9, 0), key + "/package-mass", lambda: "%s x %r" % (n, mass), case)
            chk.trace(case)
            chk.state((kind, nc, turn))
            chk.outcome("wide")


def run(chk):
    nmax = 3 if chk.quick else 4
    items = [(k, nc, na) for k in KINDS for nc in range(1, nmax + 1) for na in range(0 if k != "slurry" else 1, 4)]
    chk.parallel(files, items)
    for k in KINDS:
        numbers(chk, k)
    repo_files(chk)
    counts = (1, 2, 5, 9, 10, 11, 16, 25, 40) if chk.quick else tuple(range(1, 41))
    chk.parallel(wide, [(k, n) for k in KINDS for n in counts])
    chk.bounds["wide_files"] = "%r components x %d awkwardly named assays x 3 orders" % (counts, len(AWKWARD))
    for k in KINDS:
        explore.bfs(chk, Store(chk, k), 3 if chk.quick else 5, key="store:" + k)
        explore.after_rejection(chk, Store(chk, k), "rejected:" + k)
    chk.bounds["files"] = dict(components="1-3", assays="0-3", separators=len(SEP), padding=len(PAD),
                               noise=len(NOISE), styles=len(STYLE))
    chk.assumptions.append("component and assay names contain no white space and are distinct")
