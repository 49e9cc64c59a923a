"""T03: FactSage text files.

Every file of a bounded family (phases x ranges x terms per range, record numbering, number styles,
separators, layout) is written, loaded through the public loader and its behaviour compared with
the data that was written.
"""
import contextlib, io, itertools, os, shutil, tempfile
from mc import core, cpdata, factsage


def tc():
    from auxi.tools.chemistry import thermochemistry
    return thermochemistry


def load(t, folder):
    with contextlib.redirect_stdout(io.StringIO()):
        t.load_data_factsage(folder)


def same_compound(sub, comp, ref, key, case):
    sub.expect(sorted(comp.get_phase_list()) == sorted(ref.phases), key + "/phases",
               "phases %r, expected %r" % (comp.get_phase_list(), sorted(ref.phases)), case)
    sub.expect(core.close(comp.molar_mass, ref.molar_mass), key + "/molar-mass", repr(comp.molar_mass), case)
    for name, ph in ref.phases.items():
        ts = {298.15, ph.tmax + 150.0}
        for a, b, _ in ph.records:
            ts |= {a + 1.0, 0.5 * (a + b), b - 1.0, b}
        for T in sorted(ts):
            sub.step()
            tol = ph.scales(T) * 1e-9 + 1e-6
            got = comp.Cp(name, T), comp.H(name, T), comp.S(name, T), comp.G(name, T)
            sub.expect(any(core.close(got[0], x, 1e-9, 1e-9 * ph.scales(T) / T) for x in ph.cp(T)), key + "/Cp",
                       "Cp of %s at %r K: %r, expected %r" % (name, T, got[0], ph.cp(T)), case)
            sub.expect(core.close(got[1], ph.h(T), 1e-9, tol), key + "/H", "H of %s at %r K: %r, expected %r" % (name, T, got[1], ph.h(T)), case)
            sub.expect(core.close(got[2], ph.S(T), 1e-9, tol / T * 4), key + "/S", "S of %s at %r K: %r, expected %r" % (name, T, got[2], ph.S(T)), case)
            sub.expect(core.close(got[3], ph.g(T), 1e-9, tol * 5), key + "/G", "G of %s at %r K: %r, expected %r" % (name, T, got[3], ph.g(T)), case)


def one(sub, d, kw, key):
    t = tc()
    case = {k: repr(v) for k, v in kw.items()}
    text, ref = factsage.build(**kw)
    path = os.path.join(d, "Compound_x.txt")
    with open(path, "w", newline="") as f:
        f.write(text)
    with sub.guard(key, case):
        sub.step()
        load(t, d)
        sub.expect(sorted(t.compounds) == [ref.formula], key + "/compounds", "compounds %r" % sorted(t.compounds), case)
        same_compound(sub, t.compounds[ref.formula], ref, key, case)
    sub.state(text)
    sub.outcome("%s phases=%d ranges=%d" % (key, len(kw["shape"]), sum(map(len, kw["shape"]))))
    sub.trace(case)


def structures(sub, item):
    shapes, styles = item
    d = tempfile.mkdtemp(dir=sub.scratch)
    try:
        for sh in shapes:
            for numbering, style in styles:
                one(sub, d, dict(formula="Fe2O3", shape=sh, numbering=numbering, style=style), "structure")
    finally:
        shutil.rmtree(d)


def zeros(sub, shape):
    """Terms with coefficient zero, in every combination of places."""
    d = tempfile.mkdtemp(dir=sub.scratch)
    n = sum(map(sum, shape))
    try:
        for k in range(1, n + 1):
            for zero in itertools.combinations(range(n), k):
                for style in ("plain", "short", "sci"):
                    one(sub, d, dict(formula="Al2O3", shape=shape, style=style, zero=zero), "zeros")
    finally:
        shutil.rmtree(d)


def layouts(sub, item):
    numbering, style, sep = item
    d = tempfile.mkdtemp(dir=sub.scratch)
    shapes = (((1,),), ((1,), (1,)), ((3, 2), (1,)), ((1,), (2, 1), (1,)), ((2,), (5, 1)))
    try:
        for sh, tmin, headers, blanks, trail, first, nl, end in itertools.product(
                shapes, ("298", "298.15", "298.00"), (0, 1, 4), (False, True), ("", "  "), ("name", "bare", "label", "blank"), ("\n", "\r\n"),
                ("_" * 60, "_", "")):
            if sub.quick and (headers == 4) + (first == "label") + (nl == "\r\n") + (end == "_") + (tmin == "298.00") > 1:
                continue
            one(sub, d, dict(formula="CaO", shape=sh, numbering=numbering, style=style, sep=sep, tmin=tmin, headers=headers,
                             blanks=blanks, trail=trail, firstline=first, nl=nl, end=end, nonl=not end), "layout")
    finally:
        shutil.rmtree(d)


def names(sub, formula):
    """Phase names, including ones that are prefixes of each other or look like numbers."""
    d = tempfile.mkdtemp(dir=sub.scratch)
    pool = ("S1", "S", "L", "G1", "zz", "Aq", "S11", "1")
    try:
        for ns in itertools.permutations(pool, 2 if sub.quick else 3):
            for sh in (((1,),) * len(ns), ((1, 1),) * len(ns), ((1, 2),) + ((1,),) * (len(ns) - 1)):
                for numbering in ("restart", "serial"):
                    one(sub, d, dict(formula=formula, shape=sh, names=ns, numbering=numbering), "names")
    finally:
        shutil.rmtree(d)


def folders(sub, item):
    """Several files in one folder: every compound has its own data, whatever the others are."""
    t = tc()
    formulas = ("CaO", "Fe2O3", "SiO2", "H2O")
    shapes = (((1,),), ((2, 1),), ((1,), (3,)), ((1, 1), (1,)))
    for n in (1, 2, 3):
        for fs in itertools.permutations(formulas, n):
            for shs in itertools.product(shapes, repeat=n):
                if shs[0] != shapes[item]:
                    continue
                d = tempfile.mkdtemp(dir=sub.scratch)
                try:
                    refs = {}
                    for f, sh in zip(fs, shs):
                        text, ref = factsage.build(f, sh)
                        refs[f] = ref
                        with open(os.path.join(d, "Compound_%s.txt" % f), "w") as fh:
                            fh.write(text)
                    with open(os.path.join(d, "notes.txt"), "w") as fh:
                        fh.write("nothing")
                    case = dict(formulas=list(fs), shapes=[list(map(list, s)) for s in shs])
                    with sub.guard("folder", case):
                        load(t, d)
                        sub.expect(sorted(t.compounds) == sorted(refs), "folder/compounds", repr(sorted(t.compounds)), case)
                        for f in refs:
                            same_compound(sub, t.compounds[f], refs[f], "folder", case)
                    sub.state((fs, shs))
                    sub.outcome("folder files=%d" % n)
                    sub.trace(case)
                finally:
                    shutil.rmtree(d)


def run(chk):
    q = chk.quick
    terms = (1, 2, 3, 4) if q else (1, 2, 3, 4, 5)
    per = [tuple(x) for n in (1, 2) for x in itertools.product(terms, repeat=n)]
    three = [tuple(x) for x in itertools.product(terms[:3], repeat=3)]
    shapes = [(a,) for a in per + three] + [(a, b) for a in per for b in per]
    small = [(1,), (2,), (3,), (1, 1), (2, 1)]
    shapes += [x for x in itertools.product(small if q else per[:14], repeat=3)]
    # more ranges than one digit can number
    shapes += [((1,) * k,) for k in (4, 8, 9, 10, 11, 12)] + [((2,) + (1,) * 11, (1, 2)), ((1,), (1, 2) * 5), ((1,) * 10, (1,) * 10)]
    shapes += [(tuple([k]),) for k in (4, 5, 6, 7, 8)] + [((8, 7), (6, 5))]
    styles = [("restart", "plain"), ("serial", "plain"), ("restart", "short"), ("serial", "sci")]
    chk.parallel(structures, [(shapes[i::16], styles) for i in range(16)])
    chk.parallel(layouts, [(n, s, sep) for n in ("restart", "serial") for s in ("plain", "short") for sep in (" ", "   ")])
    chk.parallel(zeros, [((1,),), ((2,),), ((3,),), ((4,),), ((5,),), ((2, 2),), ((1, 3),), ((2,), (2,)), ((1, 2), (2,)), ((2, 1), (1, 2)), ((3, 3),), ((2, 2), (3,))])
    chk.parallel(names, ["MgO", "C2H4"])
    chk.parallel(folders, range(4))
    chk.bounds = dict(phases=3, ranges_per_phase="3, and up to 12 in single shapes", terms_per_range=8, structures=len(shapes), numberings=2, styles=3)
    chk.assumptions = ["well-formed: heading with the formula as second blank-separated word, data between two lines starting with '_', one or two terms per line, "
                       "reference enthalpy and entropy on a phase's first line, temperature range at the end of every line, first range from 298(.15) K, rows of a phase together"]
