"""M04: slurry packages against bookkeeping of solids, water and solid volume."""
import copy
from mc import core, explore, packages
from mc.packages import Rejected
from mc.checks.m03 import POOL, Psd, Fine as PsdFine


class Slurry(Psd):
    module = "slurry"
    has_add_to = False
    rho = dict(X=dict(A=3.0, B=4.5, W=2.0), Y=dict(A=2.5), Z=dict(A=7.0))
    h2o = dict(X=dict(A=0.0, B=0.4, W=1.0), Y=dict(A=0.25), Z=dict(A=0.1))
    assays = dict(X=dict(A=[0.5, 0.25, 0.125, 0.0], B=[0.1, 0.0, 0.6, 0.3], W=[0.0] * 4),
                  Y=dict(A=[0.4, 0.5]), Z=dict(A=[0.3, 0.3, 0.4]))
    invalid = Psd.invalid + (("Fe", 1.0), ("h2o", 1.0))

    def head(self, n):
        return [["solid_density"] + list(self.rho[n].values()), ["H2O"] + list(self.h2o[n].values())]

    def starts(self, which):
        if which == "filled":
            return [("X", "B", 10.0, {}), ("X", "A", 3.0, {}), ("Y", "A", 4.0, {}),
                    ("X", "W", 2.0, {}), ("Z", "A", 5.0, {})]
        if which == "scales":
            return [("X", "A", 2e6 / 7, {}), ("X", "B", 3e2 / 7, {}), ("Y", "A", 4e-3 / 7, {}),
                    ("X", "W", 1e-3 / 7, {}), ("Z", "A", 5e4 / 7, {})]
        return [("X", None, 0.0, {}), ("X", "W", 3.0, {}), ("Y", None, 0.0, {}),
                ("Y", "A", 4.0, {}), ("Z", "A", 5.0, {})]

    def model_make(self, mat, assay, mass, kw):
        comps = self.comps[mat]
        m = {"H2O": 0.0}
        m.update(dict.fromkeys(comps, 0.0))
        if assay is None:
            return dict(mat=mat, m=m, rho=1.0)
        w = self.h2o[mat][assay]
        a = self.assays[mat][assay]
        t = sum(a)
        m["H2O"] = mass * w
        for c, x in zip(comps, a):
            m[c] = mass * (1 - w) * x / t if t else 0.0
        return dict(mat=mat, m=m, rho=self.rho[mat][assay])

    def solid(self, s):
        return sum(v for c, v in s["m"].items() if c != "H2O")

    def m_add(self, a, b):
        r = super().m_add(a, b)
        sa, sb = self.solid(a), self.solid(b)
        if sa + sb > 0:
            r["rho"] = (sa + sb) / (sa / a["rho"] + sb / b["rho"])
        return r

    def m_clear(self, a):
        r = self.m_scale(a, 0.0)
        r["rho"] = 1.0
        return r

    def tuple_comps(self):
        return (self.comps["X"][0], "H2O", self.comps["X"][2])

    def amount_comp(self, p, c):
        return p.H2O_mass if c == "H2O" else p.get_size_class_mass(c)

    def impl_extra(self, regs):
        return tuple(core.canon_num(r.solid_density) for r in regs)

    def check_one(self, chk, p, s, tag, hist, role, full):
        chk.expect(p.material is self.mats[s["mat"]], tag + "/material", "%s: other material" % role, hist)
        got = {c: p.get_size_class_mass(c) for c in s["m"] if c != "H2O"}
        got["H2O"] = p.H2O_mass
        self.check_masses(chk, got, s, tag, hist, role)
        w, sol = s["m"]["H2O"], self.solid(s)
        tot = w + sol
        vol = w / 1.0 + sol / s["rho"]
        chk.eq(p.get_volume(), float(vol), tag + "/volume", hist, what=role + " volume")
        if sol > 0:
            chk.eq(p.solid_density, s["rho"], tag + "/solid-density", hist, what=role + " solid density")
        else:
            # without solids the density is not observable, but it must stay a usable number
            chk.expect(p.solid_density > 0, tag + "/solid-density", "%s: solid density %r"
                       % (role, p.solid_density), hist)
        if not full:
            return
        chk.expect(core.allclose(p.size_class_masses, [v for c, v in s["m"].items() if c != "H2O"]),
                   tag + "/array", lambda: "%s: masses %r" % (role, p.size_class_masses), hist)
        chk.eq(p.get_mass(), float(tot), tag + "/total", hist, what=role + " total mass")
        chk.eq(p.get_solid_mass(), float(sol), tag + "/solid", hist, what=role + " solid mass")
        if tot > 0:
            chk.eq(p.get_mass_fraction_solids(), sol / tot, tag + "/mass-fraction-solids", hist)
            chk.eq(p.get_density(), tot / vol, tag + "/density", hist)
            chk.eq(p.get_volume_fraction_solids(), (sol / s["rho"]) / vol, tag + "/volume-fraction-solids", hist)
            str(p)
        if sol > 0:
            chk.expect(core.allclose(p.get_assay(), [v / sol for c, v in s["m"].items() if c != "H2O"]),
                       tag + "/assay", lambda: "%s: assay %r" % (role, p.get_assay()), hist)
            for c, v in s["m"].items():
                if c != "H2O":
                    chk.eq(p.get_size_class_mass_fraction(c), v / sol, tag + "/fraction", hist)


class Fine(Slurry):
    """Size classes of micrometres."""
    comps, text, unknown = PsdFine.comps, PsdFine.text, PsdFine.unknown


def run(chk):
    for start, d in (("filled", 3 if chk.quick else 4), ("empty", 2 if chk.quick else 3)):
        explore.bfs(chk, Slurry(chk, start), d, key=start, max_states=400000)
    explore.bfs(chk, Fine(chk, "filled"), 2, key="fine", max_states=400000)
    s = Slurry(chk, "scales")
    s.scales = True
    explore.bfs(chk, s, 2 if chk.quick else 3, key="scales", max_states=400000)
    packages.number_kinds(chk, Slurry)
    explore.after_rejection(chk, Slurry(chk, "filled"))
    packages.relations(chk, Slurry, 1 if chk.quick else 2, pool=POOL)
    chk.assumptions.append("negative masses are outside the documented operations; water has density 1")
