"""S02: amounts, masses, fractions and conversions.

Every mixture of up to a number of compounds (every order) with every combination of masses and
amounts from a value set; every (source, target, element) conversion; every history of calls on
shared dictionaries. The oracle uses its own expansion of the formulas.
"""
import itertools
from mc import core, formula

COMPOUNDS = ("Fe2O3[S1]", "FeO", "SiO2", "Ca(OH)2", "CaSO4.2H2O", "C", "O2", "Fe", "CH4[G]", "H2O", "NH4Cl", " FeCr2O4[S] ")
# compounds in which the shared element is a trace, or nearly everything
EXTREME = ("HI", "UH3", "UF6", "H2O2", "PbH4", "Be3U", "LiAlH4", "CH4", "H2", "C60H2", "B4C", "Pb3U2O9H")
VALUES = (0.0, 1.0, 2.5, 1e-6, 4.0e5)


def sto():
    from auxi.tools.chemistry import stoichiometry
    return stoichiometry


_AM = {}


def am(e):
    if e not in _AM:
        _AM[e] = sto().molar_mass(e)
    return _AM[e]


def mm(f):
    return sum(n * am(e) for e, n in formula.atoms(f).items())


def same(got, want, rtol=1e-10):
    return isinstance(got, dict) and set(got) == set(want) and len(got) == len(want) and \
        all(core.close(got[k], want[k], rtol, abs(want[k]) * rtol + 1e-300) for k in want)


def mixture(sub, item):
    s = sto()
    forms, values = item
    for perm in itertools.permutations(range(len(forms))):
        for vs in itertools.product(values, repeat=len(forms)):
            names = [forms[i] for i in perm]
            given = {forms[i]: vs[i] for i in perm}
            case = dict(mixture=given)
            sub.state(("m", tuple(given.items())))
            with sub.guard("mixture", case):
                sub.step(6)
                n = {k: v / mm(k) for k, v in given.items()}
                m = {k: v * mm(k) for k, v in given.items()}
                work = dict(given)
                keep = list(work.items())
                for name, want in (("amounts", n), ("masses", m)):
                    got = getattr(s, name)(work)
                    sub.expect(same(got, want), name, lambda: "%s(%r): expected %r, observed %r" % (name, given, want, got), case)
                    sub.expect(list(work.items()) == keep, name + "/input", "%s changed its input to %r" % (name, work), case)
                    got_ = got
                back = s.masses(s.amounts(work))
                sub.expect(same(back, given), "round-trip/masses", lambda: "masses(amounts(%r)) = %r" % (given, back), case)
                back2 = s.amounts(s.masses(work))
                sub.expect(same(back2, given), "round-trip/amounts", lambda: "amounts(masses(%r)) = %r" % (given, back2), case)
                for name, part in (("amount_fractions", n), ("mass_fractions", m)):
                    total = sum(part.values())
                    if not total:
                        continue
                    sub.step()
                    fr = getattr(s, name)(work)
                    want = {k: v / total for k, v in part.items()}
                    sub.expect(same(fr, want), name, lambda: "%s(%r): expected %r, observed %r" % (name, given, want, fr), case)
                    sub.expect(core.close(sum(fr.values()), 1.0), name + "/sum", "%s(%r) sum to %r" % (name, given, sum(fr.values())), case)
                    sub.expect(list(work.items()) == keep, name + "/input", "%s changed its input to %r" % (name, work), case)
                    # fractions of the scaled mixture are the same
                    fr2 = getattr(s, name)({k: 7.0 * v for k, v in work.items()})
                    sub.expect(same(fr2, want), name + "/scale", lambda: "%s(7 x %r) = %r" % (name, given, fr2), case)
                if sum(n.values()):
                    rt = s.mass_fractions(s.amount_fractions(work))
                    tot = sum(given.values())
                    want = {k: v / tot for k, v in given.items()}
                    sub.expect(same(rt, want), "fraction-round-trip", lambda: "mass_fractions(amount_fractions(%r)) = %r" % (given, rt), case)
            sub.outcome("compounds=%d zeros=%d" % (len(forms), vs.count(0.0)))
            sub.trace(given)


def wide(sub, n):
    """Mixtures of many compounds at once."""
    s = sto()
    pool = list(COMPOUNDS) + list(EXTREME) + [g for g in GRID if g not in EXTREME]
    for off in range(0, len(pool), 5):
        forms = [pool[(off + i) % len(pool)] for i in range(n)]
        given = {f: (i % 4) * 1.75 + (0.5 if i % 3 else 1e-5) for i, f in enumerate(forms)}
        with sub.guard("wide", given):
            sub.step(6)
            nn = {k: v / mm(k) for k, v in given.items()}
            m = {k: v * mm(k) for k, v in given.items()}
            for name, want, part in (("amounts", nn, 0), ("masses", m, 0), ("amount_fractions", nn, 1), ("mass_fractions", m, 1)):
                t = sum(want.values()) if part else 1.0
                got = getattr(s, name)(given)
                sub.expect(same(got, {k: v / t for k, v in want.items()}), "wide/" + name, lambda: "%s(%r) = %r" % (name, given, got), given)
            els = set().union(*(formula.atoms(f) for f in forms))
            got = s.elements(forms)
            sub.expect(set(got) == els, "wide/elements", "elements(%r) = %r" % (forms, got), forms)
            for f in forms[:6]:
                row = sorted(formula.SYMBOLS)[off:off + n] + sorted(formula.atoms(f))
                fr = s.element_mass_fractions(f, row)
                sub.expect(core.allclose(fr, [formula.atoms(f).get(e, 0) * am(e) / mm(f) for e in row], 1e-10, 1e-12), "wide/element-fractions", "%r of %r: %r" % (row, f, fr), f)
        sub.state(("w", off, n))
        sub.trace(dict(wide=n, offset=off))


def single(sub, f):
    s = sto()
    for v in VALUES + (-3.0, 1, 7):
        case = dict(compound=f, value=v)
        with sub.guard("single", case):
            sub.step(4)
            sub.expect(core.close(s.amount(f, v), v / mm(f), 1e-10, 1e-15), "amount", "amount(%r, %r) = %r" % (f, v, s.amount(f, v)), case)
            sub.expect(core.close(s.mass(f, v), v * mm(f), 1e-10, 1e-15), "mass", "mass(%r, %r) = %r" % (f, v, s.mass(f, v)), case)
            sub.expect(core.close(s.mass(f, s.amount(f, v)), v, 1e-12, 1e-15), "mass-of-amount", "%r" % s.mass(f, s.amount(f, v)), case)
            sub.trace(case)
        sub.state(("s", f, v))
    case = dict(compound=f)
    with sub.guard("element-fractions", case):
        els = sorted(formula.atoms(f))
        for perm in itertools.permutations(els + ["Zr"]):
            sub.step()
            arg = list(perm)
            fr = s.element_mass_fractions(f, arg)
            sub.expect(arg == list(perm), "element-fractions/input", "%r" % arg, case)
            sub.expect(core.allclose(fr, [formula.atoms(f).get(e, 0) * am(e) / mm(f) for e in perm], 1e-10, 1e-12),
                       "element-fractions", "%r of %r: %r" % (perm, f, fr), case)
            sub.expect(core.close(sum(fr), 1.0), "element-fractions/sum", "%r sum to %r" % (f, sum(fr)), case)
            co = s.stoichiometry_coefficients(f, arg)
            sub.expect(core.allclose(co, [float(formula.atoms(f).get(e, 0)) for e in perm]), "coefficients", "%r" % co, case)
            sub.trace(dict(compound=f, elements=arg))


def convert(sub, src):
    s = sto()
    for dst in COMPOUNDS + EXTREME:
        a, b = formula.atoms(src), formula.atoms(dst)
        for e in sorted(set(a) | set(b)):
            for m in (1.0, 0.0, 123.5, 1e-7):
                case = dict(mass=m, source=src, target=dst, element=e)
                with sub.guard("convert", case):
                    sub.step(2)
                    got = s.convert_compound(m, src, dst, e)
                    sub.state(("c", src, dst, e, m))
                    if e in a and e in b:
                        kmol = m * a[e] / mm(src)          # kmol of the element
                        want = kmol / b[e] * mm(dst)
                        sub.expect(core.close(got, want, 1e-10, 1e-16), "convert", "%r: expected %r, observed %r" % (case, want, got), case)
                        carried = got * s.element_mass_fraction(dst, e)
                        sub.expect(core.close(carried, m * s.element_mass_fraction(src, e), 1e-10, 1e-16), "convert/element-conserved",
                                   "%r: %s mass %r" % (case, e, carried), case)
                        back = s.convert_compound(got, dst, src, e)
                        sub.expect(core.close(back, m, 1e-10, 1e-16), "convert/back", "%r: back %r" % (case, back), case)
                        for mid in ("Fe2O3", "H2O", "CaSO4", "CO2", "NH3", "CrCl3"):
                            if e in formula.atoms(mid):
                                via = s.convert_compound(s.convert_compound(m, src, mid, e), mid, dst, e)
                                sub.expect(core.close(via, want, 1e-10, 1e-16), "convert/via", "%r via %s: %r" % (case, mid, via), case)
                        sub.outcome("shared")
                    else:
                        sub.expect(got == 0.0, "convert/unshared", "%r: %r" % (case, got), case)
                        sub.outcome("not shared")
                    sub.trace(case)


GRID = [c + h + n + o for c in ("", "C", "C2") for h in ("", "H", "H2", "H3", "H4") for n in ("", "N", "N2") for o in ("", "O", "O2") if c + h + n + o]


def grid(sub, src):
    """Every pair of small molecules of C, H, N and O: many are as heavy as one another."""
    s = sto()
    a = formula.atoms(src)
    for dst in GRID:
        b = formula.atoms(dst)
        for e in "CHNO":
            case = dict(mass=123.5, source=src, target=dst, element=e)
            with sub.guard("grid", case):
                sub.step()
                got = s.convert_compound(123.5, src, dst, e)
                want = 123.5 * a[e] / mm(src) / b[e] * mm(dst) if e in a and e in b else 0.0
                sub.expect(core.close(got, want, 1e-10, 1e-16), "convert", "%r: expected %r, observed %r" % (case, want, got), case)
            sub.trace(case)
        sub.state(("g", src, dst))
        with sub.guard("grid", (src, dst)):
            if src != dst:
                sub.step(2)
                g = {src: 2.0, dst: 3.0}
                n = {src: 2.0 / mm(src), dst: 3.0 / mm(dst)}
                t = sum(n.values())
                got = s.amount_fractions(g)
                sub.expect(same(got, {k: v / t for k, v in n.items()}), "amount_fractions", "amount_fractions(%r) = %r" % (g, got), g)
                got = s.amounts(g)
                sub.expect(same(got, n), "amounts", "amounts(%r) = %r" % (g, got), g)


OPS = ("amounts", "masses", "amount_fractions", "mass_fractions", "tamper", "convert", "elements", "bad")


def history(sub, item):
    """The same dictionary is used throughout; results never depend on what was called before."""
    first, depth = item
    s = sto()
    base = {"FeO": 2.0, "SiO2": 1.0, "Ca(OH)2": 0.5}
    tot_n = sum(v / mm(k) for k, v in base.items())
    tot_m = sum(v * mm(k) for k, v in base.items())
    want = dict(amounts={k: v / mm(k) for k, v in base.items()}, masses={k: v * mm(k) for k, v in base.items()},
                amount_fractions={k: v / mm(k) / tot_n for k, v in base.items()},
                mass_fractions={k: v * mm(k) / tot_m for k, v in base.items()})
    for n in range(depth):
        for rest in itertools.product(OPS, repeat=n):
            hist = (first,) + rest
            case = dict(history=list(hist))
            shared = dict(base)
            with sub.guard("history", case):
                for op in hist:
                    sub.step()
                    if op == "tamper":
                        for f in ("amounts", "masses", "amount_fractions", "mass_fractions"):
                            out = getattr(s, f)(shared)
                            for k in list(out):
                                out[k] = -5.0
                            out["Zn"] = 1.0
                    elif op == "convert":
                        got = s.convert_compound(1.0, "Fe2O3", "Fe", "Fe")
                        sub.expect(core.close(got, 2 * am("Fe") / mm("Fe2O3")), "history/convert", repr(got), case)
                    elif op == "elements":
                        got = s.elements(shared)
                        sub.expect(set(got) == {"Fe", "O", "Si", "Ca", "H"}, "history/elements", repr(got), case)
                    elif op == "bad":
                        for f in ("amounts", "masses"):
                            try:
                                out = getattr(s, f)({"FeO": 1.0, "Xx2": 1.0})
                                sub.fail("history/unknown-compound", "%s accepted Xx2: %r" % (f, out), case)
                            except core.Enough:
                                raise
                            except Exception:
                                pass
                    else:
                        got = getattr(s, op)(shared)
                        sub.expect(same(got, want[op]), "history/" + op, "expected %r, observed %r" % (want[op], got), case)
                    sub.expect(list(shared.items()) == list(base.items()), "history/input", "%s: %r" % (op, shared), case)
            sub.state(("h", hist))
            sub.trace(list(hist))


def number_kinds(sub, f):
    """Masses and amounts given as integers and numpy numbers."""
    from mc import kinds
    st = sto()
    other = "Fe2O3" if f != "Fe2O3" else "FeO"
    for v in (1, 3, 1000):
        kinds.same(sub, "numbers/amount", lambda m: st.amount(f, m), (v,))
        kinds.same(sub, "numbers/mass", lambda m: st.mass(f, m), (v,))
        for e in sorted(st.elements([f]) & st.elements([other])):
            kinds.same(sub, "numbers/convert_compound", lambda m: st.convert_compound(m, f, other, e), (v,))
        for fn in ("amounts", "amount_fractions", "masses", "mass_fractions"):
            for k in (f, other):
                kinds.same(sub, "numbers/" + fn, lambda a, b: getattr(st, fn)({f: a, other: b})[k], (v, 2))


def run(chk):
    q = chk.quick
    k = 4 if q else 5
    items = []
    for n in range(1, k + 1):
        names = COMPOUNDS if n <= 2 else COMPOUNDS[:6] if n == 3 else COMPOUNDS[:5] if n == 4 else COMPOUNDS[:7]
        values = VALUES if n <= 2 else (0.0, 1.0, 2.5) if n >= 4 else VALUES
        for fs in itertools.combinations(names, n):
            items.append((fs, values))
    chk.parallel(mixture, items)
    chk.parallel(single, COMPOUNDS + EXTREME)
    chk.parallel(number_kinds, COMPOUNDS)
    chk.parallel(convert, COMPOUNDS + EXTREME)
    chk.parallel(grid, GRID)
    chk.parallel(wide, range(2, 60 if q else 120))
    depth = 4 if q else 5
    chk.parallel(history, [(op, depth) for op in OPS])
    chk.bounds = dict(compounds=list(COMPOUNDS), mixture_size=k, wide_mixtures=59 if q else 119, values=list(VALUES), history_depth=depth, grid="%d molecules CaHbNcOd squared x 4 elements" % len(GRID))
    chk.assumptions = ["fractions of a mixture without any mass are not judged", "conversion to or from a compound without the element gives 0"]
