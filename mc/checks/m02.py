"""M02: chemical material packages against per-compound bookkeeping."""
import os, re
from mc import core, explore, packages
from mc.packages import PackageSystem, write_material, ATOM

FORMULA = {"Fe2O3": dict(Fe=2, O=3), "FeO": dict(Fe=1, O=1), "SiO2[S1]": dict(Si=1, O=2),
           "CaCO3": dict(Ca=1, C=1, O=3), "TiO2": dict(Ti=1, O=2), "Al2O3": dict(Al=2, O=3)}

POOL = ["Fe", "C", "CaO", "MgO", "Cr2O3", "MnO", "TiO", "Al", "CO2", "CO", "H2O", "SO2", "S", "N2", "Si", "Ca", "Mg", "Cr", "Mn", "Ti"]
for _c in POOL:
    FORMULA[_c] = {e: int(n or 1) for e, n in re.findall("([A-Z][a-z]?)([0-9]*)", _c)}
POOL = sorted(FORMULA)


def fractions(c):
    t = sum(ATOM[e] * n for e, n in FORMULA[c].items())
    return {e: ATOM[e] * n / t for e, n in FORMULA[c].items()}


class Chem(PackageSystem):
    unknown = "Al2O3"
    comps = dict(X=["Fe2O3", "FeO", "SiO2[S1]", "CaCO3"], Y=["CaCO3", "FeO"],
                 Z=["FeO", "TiO2", "Fe2O3"])
    assays = dict(X=dict(A=[0.5, 0.25, 0.125, 0.0], B=[0.1, 0.0, 0.6, 0.3]), Y=dict(A=[0.4, 0.5]),
                  Z=dict(A=[0.3, 0.3, 0.4]))

    def materials(self):
        from auxi.modelling.process.materials import chem
        out = {}
        for n in self.comps:
            p = os.path.join(self.scratch, "chem%s%d.txt" % (n, os.getpid()))
            write_material(p, ["Compound"] + list(self.assays[n]),
                           [[c] + [a[k] for a in self.assays[n].values()]
                            for k, c in enumerate(self.comps[n])])
            out[n] = chem.Material(self.label(n), p)
            os.remove(p)
        return out

    def material_state(self, m):
        return (m.name, list(m.compounds), {k: list(v) for k, v in m.assays.items()}, list(m.elements))

    def starts(self, which):
        if which == "filled":
            return [("X", "A", 7.0, {}), ("X", "B", 3.0, {}), ("Y", "A", 4.0, {}),
                    ("X", None, 0.0, {}), ("Z", "A", 5.0, {})]
        if which == "scales":
            return [("X", "A", 2e6 / 7, {}), ("X", "B", 3e2 / 7, {}), ("Y", "A", 4e-3 / 7, {}),
                    ("X", None, 0.0, {}), ("Z", "A", 5e4 / 7, {})]
        return [("X", None, 0.0, {}), ("X", "B", 3.0, {}), ("Y", None, 0.0, {}),
                ("Y", "A", 4.0, {}), ("Z", "A", 5.0, {})]

    def make(self, mat, assay, mass, kw):
        return self.mats[mat].create_package(assay, mass)

    def array(self, p):
        return p.compound_masses

    def amount_comp(self, p, c):
        return p.get_compound_mass(c)

    def check_one(self, chk, p, s, tag, hist, role, full):
        chk.expect(p.material is self.mats[s["mat"]], tag + "/material", "%s: other material" % role, hist)
        got = {c: p.get_compound_mass(c) for c in s["m"]}
        self.check_masses(chk, got, s, tag, hist, role)
        chk.expect(core.allclose(p.compound_masses, s["m"].values(), 1e-9, 1e-9), tag + "/array",
                   lambda: "%s: compound masses %r" % (role, p.compound_masses), hist)
        if not full:
            return
        tot = self.total(s)
        chk.eq(p.get_mass(), float(tot), tag + "/total", hist, what=role + " total mass")
        if tot > 0:
            chk.expect(core.allclose(p.get_assay(), [v / tot for v in s["m"].values()]), tag + "/assay",
                       lambda: "%s: assay %r" % (role, p.get_assay()), hist)
            for c, v in s["m"].items():
                chk.eq(p.get_compound_mass_fraction(c), v / tot, tag + "/fraction", hist, what=role + " fraction")
        els = p.material.elements
        want = dict.fromkeys(els, 0.0)
        for c, v in s["m"].items():
            for e, f in fractions(c).items():
                want[e] = want.get(e, 0.0) + v * f
        em = p.get_element_masses()
        chk.expect(list(els) == sorted(want), tag + "/elements", "element list %r" % (els,), hist)
        chk.expect(core.allclose(em, [want[e] for e in els], 2e-3, 1e-12), tag + "/element-masses",
                   lambda: "%s: %r instead of %r" % (role, em, want), hist)
        chk.expect(core.close(sum(em), tot), tag + "/element-total",
                   lambda: "%s: elements weigh %r, package %r" % (role, sum(em), tot), hist)
        d = p.get_element_mass_dictionary()
        chk.expect(set(d) == set(els) and core.allclose([d[e] for e in els], em), tag + "/element-dict",
                   lambda: "%s: %r" % (role, d), hist)
        chk.expect(all(core.close(p.get_element_mass(e), x) for e, x in zip(els, em)), tag + "/element-mass",
                   lambda: "%s: single element masses differ" % role, hist)
        str(p)


def run(chk):
    for start, d in (("filled", 3 if chk.quick else 4), ("empty", 2 if chk.quick else 3)):
        s = Chem(chk, start)
        explore.bfs(chk, s, d, key=start, max_states=400000)
    s = Chem(chk, "scales")
    s.scales = True
    explore.bfs(chk, s, 2 if chk.quick else 3, key="scales", max_states=400000)
    explore.after_rejection(chk, Chem(chk, "filled"))
    packages.relations(chk, Chem, 1 if chk.quick else 2, pool=POOL)
    chk.assumptions.append("negative masses are outside the documented operations")
