"""S01: molar mass and composition of formulas.

Part 1: every formula tree up to a size (elements, subscripts, nesting, dotted part, phase, blanks)
against the counts of the tree it was generated from. Part 2: every string up to a length over a
formula alphabet, and every one-character edit of typical formulas, against an independent
recogniser: read with the right counts, or rejected. Part 3: every history of calls with mutation
of what they return, and more formulas than any cache holds, against fresh answers. Part 4: the
periodic table.
"""
import itertools
from mc import core, explore, formula

TEXTUAL = ("Fe2O3[S1]", "CaSO4.2H2O", "Mg(OH)2", "Ca3(PO4)2.Ca(OH)2[L]", "K4(ON(SO3)2)2", "(NH4)2SO4", "NaCl", "Co",
           "CaMg(CO3)2", "Al2(SO4)3.18H2O[Salpha]", "((C2H5)2O)3", "C12H22O11", "UO2")


def sto():
    from auxi.tools.chemistry import stoichiometry
    return stoichiometry


def mass_of(counts, am):
    return sum(n * am[e] for e, n in counts.items())


def compare(sub, f, want, am, deep=True, case=None, key="formula"):
    """All observations of one well-formed formula."""
    s = sto()
    case = case or dict(formula=f)
    with sub.guard(key, case):
        sub.step(3)
        sub.eq(s.molar_mass(f), float(mass_of(want, am)), key + "/molar-mass", case, 1e-10, 1e-12)
        els = sorted(want) + ["Zn" if "Zn" not in want else "Ag"]
        sub.eq(list(map(float, s.stoichiometry_coefficients(f, els))), [float(want.get(e, 0)) for e in els],
               key + "/counts", case)
        got = s.elements([f])
        sub.expect(sorted(set(got) - {e for e in want if not want[e]}) == sorted(formula.support(want)) and len(got) == len(set(got)),
                   key + "/elements", "elements of %r: %r, expected %r" % (f, got, sorted(formula.support(want))), case)
        if deep:
            sub.step(2)
            m = mass_of(want, am)
            for e in els:
                sub.eq(float(s.stoichiometry_coefficient(f, e)), float(want.get(e, 0)), key + "/count", case)
                if m:
                    sub.eq(s.element_mass_fraction(f, e), want.get(e, 0) * am[e] / m, key + "/mass-fraction", case, 1e-10, 1e-12)
            if m:
                fr = s.element_mass_fractions(f, els)
                sub.expect(core.allclose(fr, [want.get(e, 0) * am[e] / m for e in els]), key + "/mass-fractions",
                           "%r: %r" % (f, fr), case)
                sub.eq(s.amount(f, 2.5), 2.5 / m, key + "/amount", case, 1e-10, 1e-14)
                sub.eq(s.mass(f, 2.5), 2.5 * m, key + "/mass", case, 1e-10, 1e-12)


def rejected(sub, f, key="malformed"):
    s = sto()
    case = dict(formula=f)
    for name, call in (("molar_mass", lambda: s.molar_mass(f)),
                       ("coefficient", lambda: s.stoichiometry_coefficient(f, "C")),
                       ("elements", lambda: s.elements([f])),
                       ("coefficients", lambda: s.stoichiometry_coefficients(f, ["C", "O"])),
                       ("amount", lambda: s.amount(f, 1.0))):
        sub.step()
        try:
            r = call()
        except (Exception, SystemExit):
            sub.outcome("rejected")
            continue
        sub.fail("%s/%s" % (key, name), "%r is not a formula but %s gave %r" % (f, name, r), case)


# -- part 1: formula trees --------------------------------------------------------------------------

def shapes(leaves, depth):
    """All ways of arranging `leaves` units in groups nested up to depth: 'E' or tuples."""
    def seqs(n, d):
        # sequences of units with n leaves in total, at nesting budget d
        if n == 0:
            yield ()
            return
        for first in units(n, d):
            k = count(first)
            for rest in seqs(n - k, d):
                yield (first,) + rest

    def units(n, d):
        yield "E"
        if d:
            for k in range(1, n + 1):
                for inner in seqs(k, d - 1):
                    yield ("G", inner)

    def count(u):
        return 1 if u == "E" else sum(count(x) for x in u[1])
    return [s for s in seqs(leaves, depth)]


def slots(shape):
    """Number of units (each has a subscript)."""
    return sum(1 if u == "E" else 1 + slots(u[1]) for u in shape)


def render(shape, els, nums):
    """Text and counts; els and nums are iterators."""
    text, counts = "", {}
    for u in shape:
        if u == "E":
            e = next(els)
            t, c = e, {e: 1}
        else:
            t, c = render(u[1], els, nums)
            t = "(" + t + ")"
        n = next(nums)
        text += t + n
        for e, v in c.items():
            counts[e] = counts.get(e, 0) + v * (int(n) if n else 1)
    return text, counts


def add(a, b, n):
    out = dict(a)
    for e, v in b.items():
        out[e] = out.get(e, 0) + v * n
    return out


def trees(sub, item):
    leaves, shape, deep = item
    am = masses()
    els = ("C", "Co", "O") if leaves <= 3 else ("Na", "N")
    nums = ("", "2", "13") if leaves <= 2 or (leaves == 3 and not sub.quick) else ("", "3")
    if deep:
        els = els[:2]
    for es in itertools.product(els, repeat=leaves):
        for ns in itertools.product(nums, repeat=slots(shape)):
            t, c = render(shape, iter(es), iter(ns))
            sub.state(("t", t))
            compare(sub, t, c, am, deep=leaves <= 2)
            sub.outcome("leaves=%d groups=%d" % (leaves, slots(shape) - leaves))
            sub.trace(t)


def dressed(sub, item):
    """Dotted parts, phases and blanks around small groups."""
    (ta, ca), = [item]
    am = masses()
    parts = [("", {}), ("H2O", dict(H=2, O=1)), ("C", dict(C=1)), ("Ca(OH)2", dict(Ca=1, O=2, H=2)), ("(NH3)2", dict(N=2, H=6))]
    for (tb, cb), n, ph, (l, r) in itertools.product(
            parts, ("", "1", "2", "12", "0"), ("", "[S]", "[S1]", "[L]", "[1]", "[aq]", "[Salpha]", "[CO2]"),
            (("", ""), (" ", ""), ("", "\t"), (" ", "\n"))):
        if not tb and n:
            continue
        t = l + ta + ("." + n + tb if tb else "") + ph + r
        c = add(ca, cb, int(n) if n else 1)
        sub.state(("d", t))
        compare(sub, t, c, am)
        sub.outcome("dotted=%s phase=%s blanks=%s" % (bool(tb), bool(ph), bool(l or r)))
        sub.trace(t)


def masses():
    s = sto()
    return {e: s.molar_mass(e) for e in sorted(formula.SYMBOLS)}


# -- part 2: all strings, all edits ------------------------------------------------------------------

def judge(sub, f, am):
    sub.state(("s", f))
    try:
        want = formula.atoms(f)
    except formula.Bad:
        rejected(sub, f)
        sub.trace(f)
        return
    compare(sub, f, want, am, deep=False, key="string")
    sub.outcome("read")
    sub.trace(f)


def strings(sub, item):
    alphabet, first, length = item
    am = masses()
    for n in range(length):
        for rest in itertools.product(alphabet, repeat=n):
            f = first + "".join(rest)
            judge(sub, f, am)


def edits(sub, f):
    am = masses()
    alphabet = "CHOoa27().[]- ,"
    seen = {f}
    for i in range(len(f) + 1):
        cand = [f[:i] + c + f[i:] for c in alphabet]
        if i < len(f):
            cand.append(f[:i] + f[i + 1:])
            cand += [f[:i] + c + f[i + 1:] for c in alphabet]
            cand.append(f[:i] + f[i].swapcase() + f[i + 1:])
        if i + 1 < len(f):
            cand.append(f[:i] + f[i + 1] + f[i] + f[i + 2:])
        for g in cand:
            if g in seen or not g.strip():
                continue
            seen.add(g)
            judge(sub, g, am)


# -- part 3: histories -------------------------------------------------------------------------------

class Calls:
    """Calls in any order; what they return is tampered with; answers never change."""
    forms = ("Fe2O3[S1]", "Fe2O3", "Mg(OH)2", "CaSO4.2H2O", "Qq2", "(OH", "H2O")

    def __init__(self):
        self.am = masses()

    def initial(self):
        yield (None,)

    def ops(self):
        for f in self.forms:
            for op in ("mm", "els", "coefs", "frac", "tamper"):
                yield op, f

    def run(self, sub, hist):
        s = sto()
        for op, f in hist:
            case = dict(history=[list(h) for h in hist])
            sub.step()
            try:
                want = formula.atoms(f)
            except formula.Bad:
                want = None
            try:
                if op == "mm":
                    got = s.molar_mass(f)
                elif op == "els":
                    got = s.elements([f])
                elif op == "coefs":
                    got = s.stoichiometry_coefficients(f, ["Fe", "O", "H", "S"])
                elif op == "frac":
                    got = s.element_mass_fractions(f, ["O", "Ag"])
                else:
                    got = s.stoichiometry_coefficients(f, ["O", "Ag"])
                    got.append(3.0)
                    got[0] = 77.0
                    got = s.elements([f, "Zn"])
                    got.clear()
                    fr = s.element_mass_fractions(f, ["O"])
                    fr[0] = 9.0
                    continue
            except (Exception, SystemExit) as e:
                sub.expect(want is None, "history/" + op, "%s(%r) raised %s %s" % (op, f, type(e).__name__, e), case)
                continue
            if want is None:
                sub.fail("history/accepted", "%s(%r) gave %r" % (op, f, got), case)
                continue
            m = mass_of(want, self.am)
            exp = dict(mm=m, els=set(want), coefs=[float(want.get(e, 0)) for e in ("Fe", "O", "H", "S")],
                       frac=[want["O"] * self.am["O"] / m, 0.0])[op]
            if op == "els":
                got = set(got)
            ok = core.close(got, exp, 1e-10) if op == "mm" else core.allclose(got, exp) if op != "els" else got == exp
            sub.expect(ok, "history/" + op, "%s(%r): expected %r, observed %r" % (op, f, exp, got), case)
        sub.state(tuple(hist))
        sub.trace([list(h) for h in hist])


def histories(sub, item):
    first, depth = item
    c = Calls()
    ops = list(c.ops())
    for n in range(depth):
        for rest in itertools.product(ops, repeat=n):
            with sub.guard("history", dict(first=first)):
                c.run(sub, (first,) + rest)


def flood(sub, rounds):
    """More formulas than any cache holds, twice, forwards and backwards."""
    am = masses()
    fs = ["C%dH%dO%d" % (i, j, k) for i in range(1, 9) for j in range(1, 9) for k in range(1, 9)]
    for r in range(rounds):
        for f in (fs if r % 2 == 0 else fs[::-1]):
            compare(sub, f, formula.atoms(f), am, deep=False, key="flood")
        sub.trace("flood %d" % r)


def table(sub, _):
    s = sto()
    for e in sorted(formula.SYMBOLS):
        case = dict(element=e)
        with sub.guard("table", case):
            sub.step()
            got = s.molar_mass(e)
            if e in formula.ATOMIC:
                sub.expect(core.close(got, formula.ATOMIC[e], 5e-4, 0), "table/" + e,
                           "atomic mass of %s: %r, standard %r" % (e, got, formula.ATOMIC[e]), case)
            else:
                sub.expect(core.close(got, RADIO_OK[e], 1.5e-2, 0), "table/" + e, "atomic mass of %s: %r" % (e, got), case)
            sub.state(e)
            sub.trace(e)
    letters = [chr(c) for c in range(65, 91)]
    for a in letters:
        for b in [""] + [chr(c) for c in range(97, 123)]:
            f = a + b
            if f in formula.SYMBOLS or f in ("Cn", "Nh", "Fl", "Mc", "Lv", "Ts", "Og"):
                continue
            rejected(sub, f, "unknown-element")
            sub.trace(f)


RADIO_OK = formula.RADIO


def neighbours(sub, a):
    """Every element next to every other, and every subscript."""
    am = Weights()
    syms = sorted(formula.SYMBOLS)
    for b in syms:
        for f, want in ((a + b, [(a, 1), (b, 1)]), (a + "2" + b + "3", [(a, 2), (b, 3)]), ("(" + b + ")2" + a, [(a, 1), (b, 2)])):
            n = {}
            for e, k in want:
                n[e] = n.get(e, 0) + k
            compare(sub, f, n, am, deep=False, key="pair")
            sub.trace(f)
        sub.state(("pair", a, b))


def subscripts(sub, item):
    am = Weights()
    for n in item:
        for f, want in (("C%d" % n, dict(C=n)), ("Fe%dO2" % n, dict(Fe=n, O=2)), ("(NH4)%dCl" % n, dict(N=n, H=4 * n, Cl=1)), ("CuSO4.%dH2O" % n, dict(Cu=1, S=1, O=4 + n, H=2 * n)),
                        ("C2H%d[G]" % n, dict(C=2, H=n))):
            compare(sub, f, want, am, deep=n < 40, key="subscript")
            sub.trace(f)
        sub.state(("n", n))


def long(sub, n):
    """Formulas of n parts: in a row, nested n deep, in a group, with the same element every time."""
    am = Weights()
    syms = sorted(formula.SYMBOLS)
    for off in range(0, len(syms), 9):
        row = [syms[(off + i * 7) % len(syms)] for i in range(n)]
        for f in ("".join(row), "".join(e + str(2 + i) for i, e in enumerate(row)), "(" + "".join(row) + ")3", "Ca(" + "".join(row[::-1]) + ")2.%dH2O" % n,
                  "".join("(%s2O)%d" % (e, 1 + i % 3) for i, e in enumerate(row)), "CH3" + "(CH2)" * n + "CH3", "H" + "".join("C%dH" % (i + 1) for i in range(n)),
                  "MgO.3" + "".join(row) + "[S1]"):
            compare(sub, f, formula.atoms(f), am, deep=off == 0, key="long")
            sub.trace(f)
    if n <= 14:
        f = "(" * n + "C2" + "".join(")%sH%d" % ("" if i % 3 else "2", i + 1) for i in range(n))
        compare(sub, f, formula.atoms(f), am, key="deep")
        f = "".join("H%d(" % (i + 1) for i in range(n)) + "O" + ")2" * min(n, 6) + ")" * max(n - 6, 0)
        compare(sub, f, formula.atoms(f), am, key="deep")
        sub.trace(f)
    s = sto()
    many = [(e + "O%d" % (i + 2)) for i, e in enumerate(syms[:2 * n])]
    sub.step()
    got = s.elements(many)
    sub.expect(set(got) == set(syms[:2 * n]) | {"O"} and len(got) == len(set(got)), "long/elements", "elements(%r) = %r" % (many, got), many)
    sub.state(("long", n))


class Weights(dict):
    def __missing__(self, e):
        self[e] = sto().molar_mass(e)
        return self[e]


def run(chk):
    q = chk.quick
    chk.parallel(table, [0])
    items = []
    for leaves in range(1, 4 if q else 5):
        for sh in shapes(leaves, 2 if leaves < 4 else 1):
            items.append((leaves, sh, slots(sh) > 5))
    chk.parallel(trees, items)
    bases = [("C", dict(C=1)), ("Fe2O3", dict(Fe=2, O=3)), ("Mg(OH)2", dict(Mg=1, O=2, H=2)), ("(C2(H)3)2O", dict(C=4, H=6, O=1)),
             ("CuSO4", dict(Cu=1, S=1, O=4))]
    chk.parallel(dressed, bases)
    alphabet = "COo2().[]0 "
    n = 5 if q else 6
    small = "Co2().[]"
    chk.parallel(strings, [(alphabet, c, 4 if q else 5) for c in alphabet if c != " "] + [(small, c, n) for c in small])
    chk.parallel(edits, TEXTUAL)
    chk.parallel(neighbours, sorted(formula.SYMBOLS))
    ns = list(range(1, 130)) + [199, 200, 255, 256, 257, 365, 500, 999, 1000, 1001, 1023, 1024, 4096, 9999, 10000, 12345, 65536, 100000, 999999] if q else list(range(1, 4100)) + [9999, 10000, 65536, 99999, 10 ** 6]
    chk.parallel(subscripts, [ns[i::16] for i in range(16)])
    chk.parallel(long, range(2, 26 if q else 50))
    depth = 2 if q else 3
    chk.parallel(histories, [(op, depth) for op in Calls().ops()])
    chk.parallel(flood, [2] if q else [4, 5])
    chk.bounds = dict(leaves=3 if q else 4, nesting=2, alphabet=alphabet, string_length=4 if q else 5, small_alphabet=small,
                      small_string_length=n, parts=25 if q else 49, depth=14, edited_formulas=list(TEXTUAL), edits=1, history_depth=depth,
                      flood_formulas=512, elements=len(formula.SYMBOLS), element_pairs=len(formula.SYMBOLS) ** 2, subscripts=len(ns))
    chk.assumptions = ["a formula is rejected when the call raises; the empty string (default argument of molar_mass) is not judged",
                       "an element that only occurs with a multiplier of zero may or may not be listed among the elements"]
