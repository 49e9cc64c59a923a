"""M03: particle size distribution packages against per-class bookkeeping."""
import os
import numpy as np
from mc import core, explore, packages
from mc.packages import PackageSystem, write_material


class Psd(PackageSystem):
    unknown = 0.5
    comps = dict(X=[0.1, 0.04, 0.005, 0.0], Y=[0.005, 0.1], Z=[0.04, 0.3, 0.1])
    text = {0.1: "100.0E-3", 0.04: "4.0E-2", 0.005: "0.005", 0.0: "0.0E0", 0.3: "0.3"}
    assays = dict(X=dict(A=[0.5, 0.25, 0.125, 0.0], B=[0.1, 0.0, 0.6, 0.3]), Y=dict(A=[0.4, 0.5]),
                  Z=dict(A=[0.3, 0.3, 0.4]))
    invalid = (None, 3, (0.1,), ("A", "B"), (1, 1.0, 1.0), [1.0], {}, (0.1, 1.0, 1.0, 1.0))
    module = "psd"

    def head(self, n):
        return []

    def materials(self):
        import importlib
        mod = importlib.import_module("auxi.modelling.process.materials." + self.module)
        out = {}
        for n in self.comps:
            p = os.path.join(self.scratch, "%s%s%d.txt" % (self.module, n, os.getpid()))
            write_material(p, ["SizeClass"] + list(self.assays[n]),
                           self.head(n) + [[self.text.get(c, repr(c))] + [a[k] for a in self.assays[n].values()]
                                           for k, c in enumerate(self.comps[n])])
            out[n] = mod.Material(self.label(n), p)
            os.remove(p)
        return out

    def material_state(self, m):
        return (m.name, list(m.size_classes), {k: [float(x) for x in v] for k, v in m.assays.items()},
                dict(getattr(m, "solid_densities", {})), dict(getattr(m, "H2O_fractions", {})))

    def starts(self, which):
        if which == "filled":
            return [("X", "A", 7.0, {}), ("X", "B", 3.0, {}), ("Y", "A", 4.0, {}),
                    ("X", None, 0.0, {}), ("Z", "A", 5.0, {})]
        if which == "scales":
            return [("X", "A", 2e6 / 7, {}), ("X", "B", 3e2 / 7, {}), ("Y", "A", 4e-3 / 7, {}),
                    ("X", None, 0.0, {}), ("Z", "A", 5e4 / 7, {})]
        return [("X", None, 0.0, {}), ("X", "B", 3.0, {}), ("Y", None, 0.0, {}),
                ("Y", "A", 4.0, {}), ("Z", "A", 5.0, {})]

    def make(self, mat, assay, mass, kw):
        return self.mats[mat].create_package(assay, mass)

    def array(self, p):
        return p.size_class_masses

    def amount_comp(self, p, c):
        return p.get_size_class_mass(c)

    def real_amount(self, a, n):
        return np.float64(a) if n % 2 else float(a)

    def real_name(self, c):
        return str(c)

    def check_one(self, chk, p, s, tag, hist, role, full):
        chk.expect(p.material is self.mats[s["mat"]], tag + "/material", "%s: other material" % role, hist)
        got = {c: p.get_size_class_mass(c) for c in s["m"]}
        self.check_masses(chk, got, s, tag, hist, role)
        if not full:
            return
        chk.expect(core.allclose(p.size_class_masses, s["m"].values(), 1e-9, 1e-9), tag + "/array",
                   lambda: "%s: masses %r" % (role, p.size_class_masses), hist)
        tot = self.total(s)
        chk.eq(p.get_mass(), float(tot), tag + "/total", hist, what=role + " total mass")
        if tot > 0:
            chk.expect(core.allclose(p.get_assay(), [v / tot for v in s["m"].values()]), tag + "/assay",
                       lambda: "%s: assay %r" % (role, p.get_assay()), hist)
            for c, v in s["m"].items():
                chk.eq(p.get_size_class_mass_fraction(c), v / tot, tag + "/fraction", hist,
                       what=role + " fraction")
        str(p)


class Fine(Psd):
    """Size classes of micrometres, some of which agree in their first digits."""
    comps = dict(X=[2.5e-5, 2.4e-5, 1.2e-6, 0.0], Y=[1.2e-6, 2.5e-5], Z=[2.4e-5, 3e-5, 2.5e-5])
    text = {2.5e-5: "25.0E-6", 2.4e-5: "2.4E-5", 1.2e-6: "0.0000012", 0.0: "0", 3e-5: "30E-6"}
    unknown = 1.3e-6


POOL = [round(0.0131 * 0.83 ** i, 9) for i in range(26)]


def run(chk):
    for start, d in (("filled", 3 if chk.quick else 4), ("empty", 2 if chk.quick else 3)):
        explore.bfs(chk, Psd(chk, start), d, key=start, max_states=400000)
    explore.bfs(chk, Fine(chk, "filled"), 2, key="fine", max_states=400000)
    s = Psd(chk, "scales")
    s.scales = True
    explore.bfs(chk, s, 2 if chk.quick else 3, key="scales", max_states=400000)
    packages.number_kinds(chk, Psd)
    explore.after_rejection(chk, Psd(chk, "filled"))
    packages.relations(chk, Psd, 1 if chk.quick else 2, pool=POOL)
    chk.assumptions.append("negative masses are outside the documented operations")
