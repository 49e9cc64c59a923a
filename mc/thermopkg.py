"""Thermochemical packages (M05) and streams (M06): mass, enthalpy, temperature, pressure."""
import copy, functools, os
import numpy as np
from mc import core
from mc.packages import JUST, PackageSystem, Rejected, hidden, write_material, ATOM

FORMULA = {"Fe2O3[Salpha]": dict(Fe=2, O=3), "FeO[S]": dict(Fe=1, O=1), "SiO2[S]": dict(Si=1, O=2),
           "Al2O3[S]": dict(Al=2, O=3), "C[Sgr]": dict(C=1), "O2[G]": dict(O=2)}


def fractions(c):
    t = sum(ATOM[e] * n for e, n in FORMULA[c].items())
    return {e: ATOM[e] * n / t for e, n in FORMULA[c].items()}


def molar(c):
    return sum(ATOM[e] * n for e, n in FORMULA[c].items())


@functools.lru_cache(maxsize=200000)
def unitH(c, T):
    from auxi.tools.chemistry import thermochemistry as th
    return float(th.H(c, T, 1.0))


@functools.lru_cache(maxsize=200000)
def unitCp(c, T):
    from auxi.tools.chemistry import thermochemistry as th
    return float(th.Cp(c, T, 1.0))


def enthalpy(m, T):
    return sum(v * unitH(c, T) for c, v in m.items() if v)


def capacity(m, T):
    return sum(v * unitCp(c, T) for c, v in m.items() if v)


@functools.lru_cache(maxsize=50000)
def solve(items, H, lo, hi):
    """The temperature at which the composition has enthalpy H, bracketed by lo and hi."""
    m = dict(items)
    lo, hi = lo - 1e-6, hi + 1e-6
    T = 0.5 * (lo + hi)
    for _ in range(200):
        f = enthalpy(m, T) - H
        if f > 0:
            hi = T
        else:
            lo = T
        d = f / capacity(m, T)
        n = T - d
        if not lo <= n <= hi:
            n = 0.5 * (lo + hi)
        if abs(n - T) < 1e-10:
            return n
        T = n
    return T


class Thermo(PackageSystem):
    unknown = "Al2O3[S]"
    has_add_to = False
    comps = dict(X=["Fe2O3[Salpha]", "FeO[S]", "SiO2[S]", "C[Sgr]"], Y=["SiO2[S]", "FeO[S]"],
                 Z=["FeO[S]", "Al2O3[S]", "SiO2[S]"])
    assays = dict(X=dict(A=[0.5, 0.25, 0.125, 0.0], B=[0.1, 0.0, 0.6, 0.3]), Y=dict(A=[0.4, 0.5]),
                  Z=dict(A=[0.3, 0.3, 0.4]))
    invalid = (None, 3, ("SiO2[S]",), ("SiO2[S]", "1"), (1, 1.0, 1.0), [1.0], ("SiO2[S]", 1.0, "hot"),
               ("SiO2[S]", 1.0, 1.0, 1.0))
    stream = False

    def __init__(self, chk, start, temps=(25.0, 900.0), masses=(7.0, 3.0, 4.0, 5.0), **kw):
        self.temps, self.big = temps, masses
        super().__init__(chk, start, **kw)

    def materials(self):
        from auxi.modelling.process.materials import thermo
        out = {}
        for n in self.comps:
            p = os.path.join(self.scratch, "thermo%s%d.txt" % (n, os.getpid()))
            write_material(p, ["Compound"] + list(self.assays[n]),
                           [[c] + [a[k] for a in self.assays[n].values()]
                            for k, c in enumerate(self.comps[n])])
            out[n] = thermo.Material(self.label(n), p)
            os.remove(p)
        return out

    def material_state(self, m):
        return (m.name, list(m.compounds), {k: [float(x) for x in v] for k, v in m.raw_assays.items()},
                {k: [float(x) for x in v] for k, v in m.converted_assays.items()}, list(m.elements))

    def starts(self, which):
        t0, t1 = self.temps
        b = self.big
        if which == "filled":
            return [("X", "A", b[0], dict(P=0.8, T=t0)), ("X", "B", b[1], dict(P=2.0, T=t1)),
                    ("Y", "A", b[2], dict(P=1.5, T=400.0)), ("X", None, 0.0, dict(P=3.0, T=60.0)),
                    ("Z", "A", b[3], dict(P=1.0, T=25.0))]
        return [("X", None, 0.0, dict(P=0.8, T=t0)), ("X", "B", b[1], dict(P=2.0, T=t1)),
                ("Y", None, 0.0, dict(P=1.5, T=400.0)), ("Y", "A", b[2], dict(P=3.0, T=60.0)),
                ("Z", "A", b[3], dict(P=1.0, T=25.0))]

    def make(self, mat, assay, mass, kw):
        f = self.mats[mat].create_stream if self.stream else self.mats[mat].create_package
        return f(assay, mass, **kw)

    def extra0(self, mat, assay, kw):
        return dict(T=kw["T"], P=kw["P"])

    # public names of the two classes
    def comp(self, p, c):
        return p.get_compound_mfr(c) if self.stream else p.get_compound_mass(c)

    def tot(self, p):
        return p.mfr if self.stream else p.mass

    def H(self, p):
        return p.Hfr if self.stream else p.H

    def setH(self, p, h):
        if self.stream:
            p.Hfr = h
        else:
            p.H = h

    def array(self, p):
        # only used to keep apart states whose registers share storage
        return getattr(p, "_compound_mfrs" if self.stream else "_compound_masses", p)

    amount_comp = comp

    def amount_all(self, p):
        return self.tot(p)

    def real_amount(self, a, n):
        return np.float64(a) if n % 2 else float(a)

    # -- model -----------------------------------------------------------------------
    def m_add(self, a, b):
        r = super().m_add(a, b)
        r["T"] = self.mix(a, b, r)
        return r

    def mix(self, a, b, r):
        sa, sb = self.total(a), self.total(b)
        if sa == 0 and sb == 0:
            return a["T"]
        if sb == 0:
            return a["T"]
        if sa == 0:
            return b["T"]
        if a["T"] == b["T"]:
            return a["T"]
        H = enthalpy(a["m"], a["T"]) + enthalpy(b["m"], b["T"])
        return solve(tuple(r["m"].items()), H, min(a["T"], b["T"]), max(a["T"], b["T"]))

    def m_clear(self, a):
        r = self.m_scale(a, 0.0)
        r["T"], r["P"] = 25.0, 1.0
        return r

    def m_extract_comp(self, a, c, v):
        if c not in a["m"]:
            # documented: nothing is extracted
            out = self.m_clear(a)
            return copy.deepcopy(a), out
        return super().m_extract_comp(a, c, v)

    def tuple_comps(self):
        return (self.comps["X"][0], self.comps["X"][2])

    def str_comps(self):
        return (self.comps["X"][2], self.unknown)

    def more_ops(self, i, model):
        yield ("setT", i, 1100.0)
        yield ("setT", i, 25.0)
        yield ("setH", i, 700.0)
        yield ("setP", i, 0.5)
        yield ("addt3", i, self.comps["X"][2], 2.0, 1300.0)
        yield ("addt3", i, self.comps["X"][1], 2.0, model[i]["T"])
        yield ("addt3", i, self.comps["X"][2], 2.0, model[i]["T"] + 0.5)
        yield ("setT", i, model[i]["T"] + 0.25)
        yield ("addt3", i, self.unknown, 2.0, 100.0)
        yield ("extract_mat", i, "Y")
        yield ("extract_mat", i, "Z")

    def relation_ops(self, i):
        yield ("extract_mat", i, "Y")
        yield ("addt3", i, self.comps["X"][-1], 2.0, 800.0)

    def apply_more(self, chk, regs, model, op, hist):
        k, i = op[0], op[1]
        p, s = regs[i], model[i]
        new = list(model)
        regs = list(regs)
        if k == "setT":
            p.T = op[2]
            new[i] = dict(s, T=op[2])
        elif k == "setP":
            p.P = op[2]
            new[i] = dict(s, P=op[2])
        elif k == "setH":
            if self.total(s) > 0:
                self.setH(p, enthalpy(s["m"], op[2]))
                new[i] = dict(s, T=op[2])
        elif k == "addt3":
            c, v, T = op[2:]
            if c not in s["m"]:
                try:
                    p + (c, v, T)
                except Exception:
                    chk.outcome("addt3/rejected")
                else:
                    chk.fail("addt3/accepted", "an unknown compound was accepted", hist)
                return regs, new
            other = dict(mat=s["mat"], m=dict(dict.fromkeys(s["m"], 0.0), **{c: v}), T=T, P=1.0)
            new[3] = self.m_add(s, other)
            regs[3] = p + (c, float(v), float(T))
        elif k == "extract_mat":
            other = op[2]
            out = {c: s["m"].get(c, 0.0) for c in self.comps[other]}
            new[i] = dict(s, m={c: (0.0 if c in out else v) for c, v in s["m"].items()})
            o = dict(mat=other, m=out, T=s["T"], P=s["P"])
            regs[3] = p.extract(self.mats[other])
            new[3] = o
        else:
            raise AssertionError(op)
        chk.outcome(k + "/done")
        return regs, new

    # -- invariants --------------------------------------------------------------------
    def check_one(self, chk, p, s, tag, hist, role, full):
        chk.expect(p.material is self.mats[s["mat"]], tag + "/material", "%s: other material" % role, hist)
        got = {c: self.comp(p, c) for c in s["m"]}
        self.check_masses(chk, got, s, tag, hist, role)
        chk.expect(core.close(p.T, s["T"], 1e-9, 2e-6), tag + "/temperature",
                   lambda: "%s: temperature %r instead of %r" % (role, p.T, s["T"]), hist)
        chk.expect(core.close(p.P, s["P"], 1e-12, 0), tag + "/pressure",
                   lambda: "%s: pressure %r instead of %r" % (role, p.P, s["P"]), hist)
        want = enthalpy(s["m"], s["T"])
        tol = 1e-9 * sum(abs(v * unitH(c, s["T"])) for c, v in s["m"].items()) + 2e-6 * capacity(s["m"], s["T"])
        chk.expect(core.close(self.H(p), want, 0, tol), tag + "/enthalpy",
                   lambda: "%s: enthalpy %r instead of %r" % (role, self.H(p), want), hist)
        if not full:
            return
        here = enthalpy(got, float(p.T))
        chk.expect(core.close(self.H(p), here, 0, tol), tag + "/H-T",
                   lambda: "%s: enthalpy %r at %r, the composition has %r" % (role, self.H(p), p.T, here), hist)
        tot = self.total(s)
        chk.eq(self.tot(p), float(tot), tag + "/total", hist, what=role + " total mass")
        if tot > 0:
            chk.expect(core.allclose(p.get_assay(), [v / tot for v in s["m"].values()]), tag + "/assay",
                       lambda: "%s: assay %r" % (role, p.get_assay()), hist)
        els = p.material.elements
        want = dict.fromkeys(els, 0.0)
        wanta = []
        for c, v in s["m"].items():
            wanta.append(v / molar(c))
            for e, f in fractions(c).items():
                want[e] = want.get(e, 0.0) + v * f
        if self.stream:
            em, ed, e1 = p.get_element_mfrs(), p.get_element_mfr_dictionary(), p.get_element_mfr
            am, a1, a = p.get_compound_afrs(), p.get_compound_afr, p.afr
            sub = p.get_element_mfrs(list(els)[::-1])
        else:
            em, ed, e1 = p.get_element_masses(), p.get_element_mass_dictionary(), p.get_element_mass
            am, a1, a = p.get_compound_amounts(), p.get_compound_amount, p.amount
            sub = p.get_element_masses(list(els)[::-1])
        chk.expect(list(els) == sorted(want), tag + "/elements", lambda: "element list %r" % (els,), hist)
        chk.expect(core.allclose(em, [want[e] for e in els], 2e-3, 1e-12), tag + "/element-masses",
                   lambda: "%s: %r instead of %r" % (role, em, want), hist)
        chk.expect(core.close(sum(em), tot), tag + "/element-total",
                   lambda: "%s: elements weigh %r, package %r" % (role, sum(em), tot), hist)
        chk.expect(core.allclose(list(sub)[::-1], em) and all(core.close(e1(e), x) for e, x in zip(els, em))
                   and set(ed) == set(els) and core.allclose([ed[e] for e in els], em), tag + "/element-views",
                   lambda: "%s: element masses %r, dictionary %r" % (role, em, ed), hist)
        chk.expect(core.allclose(am, wanta, 2e-3, 1e-12) and core.close(a, sum(wanta), 2e-3)
                   and core.allclose([a1(c) for c in s["m"]], am) and core.close(a, sum(am)), tag + "/amounts",
                   lambda: "%s: amounts %r, total %r, expected %r" % (role, am, a, wanta), hist)
        str(p)


def views_are_independent(chk, stream):
    """Custom properties set on one package never show on another."""
    s = Thermo.__new__(StreamT if stream else Thermo)
    Thermo.__init__(s, chk, "filled")
    regs, _ = s.new()
    makers = dict(clone=lambda p: p.clone(), add=lambda p: p + regs[1], addt=lambda p: p + ("FeO[S]", 1.0),
                  mul=lambda p: p * 0.5, extract=lambda p: p.extract(1.0))
    for k, f in makers.items():
        p = regs[0]
        with chk.guard("props:" + k, k):
            chk.step()
            p.custom_properties.clear()
            p.custom_properties["price"] = 1.5
            q = f(p)
            if k == "clone":
                chk.expect(q.custom_properties == {"price": 1.5}, "props:clone/lost",
                           "the clone has custom properties %r" % q.custom_properties, k)
            q.custom_properties["grade"] = 2.0
            q.custom_properties["price"] = 9.0
            chk.expect(p.custom_properties == {"price": 1.5}, "props:%s/shared" % k,
                       "custom properties of the operand became %r" % p.custom_properties, k)
            str(p), str(q)
            chk.trace(k)


class StreamT(Thermo):
    stream = True


COAL = ["C[Sgr]", "H2[G]", "O2[G]", "N2[G]", "S[Smono]", "SiO2[S]", "CaO[S]"]
KINDS = ["C", "H", "O", "N", "S"]


def coal_enthalpy(m, HHV, T):
    """Enthalpy flow rate of coal: ash by compound, dry ash-free part from heating value and model."""
    from auxi.tools.materialphysicalproperties.coals import DafHTy
    from auxi.tools.chemistry.stoichiometry import convert_compound as cc
    from auxi.tools.chemistry import thermochemistry as th
    y = {k: m[c] for k, c in zip(KINDS, COAL)}
    daf = sum(y.values())
    ash = sum(m[c] * unitH(c, T) for c in COAL[5:])
    if daf == 0:
        return ash
    products = (th.H("CO2[G]", 25.0, cc(y["C"], "C", "CO2", "C")) + th.H("H2O[L]", 25.0, cc(y["H"], "H", "H2O", "H"))
                + th.H("O2[G]", 25.0, y["O"]) + th.H("N2[G]", 25.0, y["N"])
                + th.H("SO2[G]", 25.0, cc(y["S"], "S", "SO2", "S")))
    formation = products + HHV / 3.6 * sum(m.values())
    f = DafHTy()
    ys = {"y_" + k: v / daf for k, v in y.items()}
    sensible = (f.calculate(T=T + 273.15, **ys) - f.calculate(T=298.15, **ys)) / 3.6e6 * daf
    return ash + formation + sensible


def coal_solve(m, HHV, H, T):
    lo, hi = -200.0, 3000.0
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if coal_enthalpy(m, HHV, mid) > H:
            hi = mid
        else:
            lo = mid
        if hi - lo < 1e-9:
            break
    return 0.5 * (lo + hi)


class Coal:
    """Coal streams: registers 0, 1 (same composition, other heating value), 2 (other composition),
    3 results, 4 ash of the same material that is not coal."""

    def __init__(self, chk):
        from auxi.modelling.process.materials import thermo
        p = os.path.join(chk.scratch, "coal%d.txt" % os.getpid())
        self.assays = dict(A=[0.75, 0.05, 0.08, 0.01, 0.01, 0.07, 0.03], B=[0.55, 0.03, 0.12, 0.02, 0.005, 0.2, 0.075],
                           Ash=[0.0, 0.0, 0.0, 0.0, 0.0, 0.6, 0.4])
        write_material(p, ["Compound", "A", "A2", "B", "Ash"],
                       [[c, a, a, b, x] for c, a, b, x in zip(COAL, self.assays["A"], self.assays["B"], self.assays["Ash"])],
                       ["#", "IsCoal 1 1 1 0", "HHV[MJ/kg] 30.0 27.5 22.0 0.0"])
        self.m = thermo.Material("coal", p)
        os.remove(p)
        self.thermo = thermo

    def opname(self, op):
        return "coal-" + op[0]

    def slot(self, assay, mfr, P, T, HHV):
        a = self.assays[assay]
        return dict(m={c: mfr * x / sum(a) for c, x in zip(COAL, a)}, P=P, T=T, HHV=HHV,
                    coal=assay != "Ash")

    def new(self):
        regs = [self.m.create_stream("A", 10.0, 0.8, 25.0), self.m.create_stream("A2", 4.0, 1.5, 300.0),
                self.m.create_stream("B", 5.0, 1.0, 150.0), self.m.create_stream("A", 0.0, 1.0, 25.0),
                self.m.create_stream("Ash", 2.0, 1.2, 500.0)]
        model = [self.slot("A", 10.0, 0.8, 25.0, 30.0), self.slot("A", 4.0, 1.5, 300.0, 27.5),
                 self.slot("B", 5.0, 1.0, 150.0, 22.0), self.slot("A", 0.0, 1.0, 25.0, 30.0),
                 self.slot("Ash", 2.0, 1.2, 500.0, 0.0)]
        return regs, model

    def ops(self, model):
        for i in (0, 3):
            for j in range(5):
                yield ("add", i, j)
            for f in (0.5, 2.0):
                yield ("mul", i, f)
            for f in (0.0, 0.25, 1.0):
                yield ("extract", i, f)
            yield ("over", i, 1.0)
            if self.tot(model[i]) > 1e-3:
                yield ("over", i, 0.0)
            yield ("clone", i)
            if self.tot(model[i]):
                yield ("setT", i, 400.0)
                yield ("setH", i, 200.0)
            yield ("setP", i, 3.0)
        for j in (0, 3, 4):
            yield ("add", 4, j)

    def tot(self, s):
        return sum(s["m"].values())

    def H(self, s):
        return coal_enthalpy(s["m"], s["HHV"], s["T"]) if self.tot(s) else 0.0

    def scale(self, s, f):
        return dict(s, m={c: v * f for c, v in s["m"].items()})

    def apply(self, chk, regs, model, op, hist):
        k, i = op[0], op[1]
        regs, new = list(regs), list(model)
        p, s = regs[i], model[i]
        if k == "add":
            o = model[op[2]]
            a, b = self.tot(s), self.tot(o)
            m = {c: s["m"][c] + o["m"][c] for c in COAL}
            HHV = (s["HHV"] * a + o["HHV"] * b) / (a + b) if a + b else s["HHV"]
            T = s["T"] if not a + b else coal_solve(m, HHV, self.H(s) + self.H(o), s["T"])
            regs[3] = p + regs[op[2]]
            new[3] = dict(m=m, P=s["P"], T=T, HHV=HHV, coal=s["coal"] or o["coal"])
        elif k == "mul":
            regs[3], new[3] = p * op[2], self.scale(s, op[2])
        elif k == "extract":
            a = p.mfr if op[2] == 1.0 else p.mfr * op[2]
            regs[3] = p.extract(float(a))
            new[i] = self.scale(s, 1.0 - op[2])
            new[3] = self.scale(s, op[2])
        elif k == "over":
            try:
                p.extract(float(p.mfr) * JUST + op[2])
            except Exception:
                chk.outcome("coal over-extraction rejected")
            else:
                chk.fail("coal-over/accepted", "more than the stream was extracted", hist)
        elif k == "clone":
            regs[3], new[3] = p.clone(), dict(s)
        elif k == "setT":
            p.T = op[2]
            new[i] = dict(s, T=op[2])
        elif k == "setH":
            p.Hfr = coal_enthalpy(s["m"], s["HHV"], op[2])
            new[i] = dict(s, T=op[2])
        elif k == "setP":
            p.P = op[2]
            new[i] = dict(s, P=op[2])
        chk.outcome("coal-" + k)
        return regs, new

    def check(self, chk, regs, model, hist):
        tag = "coal-" + (hist[-1][0] if hist else "init")
        for n, (p, s) in enumerate(zip(regs, model)):
            scale = max(1e-6, max(s["m"].values()))
            for c in COAL:
                chk.expect(core.close(p.get_compound_mfr(c), s["m"][c], 1e-9, 1e-12 * scale), tag + "/mass",
                           lambda: "r%d: flow of %s is %r instead of %r" % (n, c, p.get_compound_mfr(c), s["m"][c]), hist)
            chk.expect(core.close(p.P, s["P"]), tag + "/pressure", lambda: "r%d: P %r instead of %r" % (n, p.P, s["P"]), hist)
            if not self.tot(s):
                continue
            chk.expect(bool(p.isCoal) == s["coal"], tag + "/coal", "r%d: coal: %r" % (n, p.isCoal), hist)
            chk.expect(not s["coal"] or core.close(p.HHV, s["HHV"]), tag + "/HHV", lambda: "r%d: HHV %r instead of %r" % (n, p.HHV, s["HHV"]), hist)
            chk.expect(core.close(p.T, s["T"], 1e-9, 1e-5), tag + "/temperature",
                       lambda: "r%d: T %r instead of %r" % (n, p.T, s["T"]), hist)
            chk.expect(core.close(p.Hfr, self.H(s), 1e-7, 1e-6 * self.tot(s)), tag + "/enthalpy",
                       lambda: "r%d: enthalpy flow %r instead of %r" % (n, p.Hfr, self.H(s)), hist)
            str(p)

    def canon(self, regs, model):
        return tuple((tuple(core.canon_num(v) for v in s["m"].values()), core.canon_num(s["T"], 7), s["P"],
                      core.canon_num(s["HHV"]), s["coal"]) for s in model), tuple(hidden(r) for r in regs)


def coal_probes(chk, stream):
    """Operations on carbonaceous materials that the classes offer (known not to work, see DESIGN.md)."""
    c = Coal(chk)
    if not stream:
        try:
            chk.step()
            p = c.m.create_package("A", 10.0, 0.8, 25.0)
            want = c.slot("A", 10.0, 0.8, 25.0, 30.0)
            ok = core.close(p.mass, 10.0) and core.close(p.H, c.H(want), 1e-7, 1e-5)
            msg = "mass %r, enthalpy %r" % (p.mass, p.H)
        except Exception as e:
            ok, msg = False, "%s: %s" % (type(e).__name__, e)
        chk.expect(ok, "coal-package-creation", msg, "create_package of an assay with IsCoal 1")
        return
    # compounds added to and extracted from coal at 25 degC, where the dry ash-free model is additive
    from auxi.tools.chemistry import thermochemistry as th
    burn = {"C[Sgr]": ("CO2[G]", 44.009 / 12.011), "H2[G]": ("H2O[L]", 18.015 / 2.016), "S[Smono]": ("SO2[G]", 64.064 / 32.066)}
    for comp in COAL:
        for how in ("add", "add-T", "extract", "extract-all"):
            for T in (25.0, 400.0):
                key = "coal-compound:%s" % how
                case = (how, comp, T)
                with chk.guard(key, case):
                    p = c.m.create_stream("A", 10.0, 0.8, 25.0)
                    p.T = T
                    H0 = p.Hfr
                    s = c.slot("A", 10.0, 0.8, T, 30.0)
                    q = None
                    if how == "add":
                        d, r = 0.5, p + (comp, 0.5)
                    elif how == "add-T":
                        d, r = 0.5, p + (comp, 0.5, T)
                    elif how == "extract":
                        d, r = -0.5 * s["m"][comp], p
                        q = p.extract((comp, -d))
                    else:
                        d, r = -s["m"][comp], p
                        q = p.extract(comp)
                    chk.step()
                    m = dict(s["m"])
                    m[comp] += d
                    heat = 0.0
                    if comp in burn:
                        prod, ratio = burn[comp]
                        heat = (unitH(comp, 25.0) - ratio * unitH(prod, 25.0)) * 3.6 * d
                    elif comp in ("O2[G]", "N2[G]"):
                        heat = unitH(comp, 25.0) * 3.6 * d
                    HHV = (300.0 + heat) / sum(m.values())
                    chk.expect(all(core.close(r.get_compound_mfr(x), v) for x, v in m.items()), key + "/mass",
                               lambda: "flows %r instead of %r" % ([r.get_compound_mfr(x) for x in m], m), case)
                    chk.expect(core.close(r.HHV, HHV, 2e-4), key + "/HHV",
                               lambda: "heating value %r instead of %r" % (r.HHV, HHV), case)
                    if q is not None:
                        chk.expect(core.close(q.get_compound_mfr(comp), -d) and core.close(q.mfr, -d) and
                                   core.close(q.T, T) and core.close(q.P, 0.8) and core.close(q.Hfr, -d * unitH(comp, T), 1e-9, 1e-9),
                                   key + "/extract", lambda: "extracted %r at %r, %r" % (q.mfr, q.T, q.P), case)
                    if comp in COAL[5:] or T == 25.0:
                        chk.expect(core.close(r.T, T, 1e-9, 1e-5), key + "/temperature", lambda: "T %r" % r.T, case)
                        want = H0 + d * unitH(comp, T)
                        chk.expect(core.close(r.Hfr, want, 1e-7, 1e-5), key + "/enthalpy",
                                   lambda: "enthalpy flow %r instead of %r" % (r.Hfr, want), case)
                    chk.expect(core.close(r.Hfr, coal_enthalpy(m, float(r.HHV), float(r.T)), 1e-7, 1e-5) or
                               (how == "add" and T != 25.0 and comp not in COAL[5:]), key + "/H-T",
                               lambda: "enthalpy flow %r, the composition has %r" % (r.Hfr, coal_enthalpy(m, float(r.HHV), float(r.T))), case)
                    chk.trace(case)
                    chk.outcome("coal-compound-" + how)
