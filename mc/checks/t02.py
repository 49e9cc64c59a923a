"""T02: the thermochemical data store.

Every history (up to a depth) of loading folders (auxi and FactSage, overlapping compounds, shipped,
empty, absent), querying, writing compounds and tampering with compound objects, with a full
comparison of the store after every step. Every compound of a bounded family is written and read.
"""
import contextlib, io, itertools, os, shutil, tempfile, warnings
from mc import core, cpdata, factsage
from mc.checks.t03 import same_compound
from mc.checks.t01 import TERMS, MAG


def tc():
    from auxi.tools.chemistry import thermochemistry
    return thermochemistry


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()) as out, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f(*a)
    return out.getvalue()


def make(f, dh, phases=("S",), extra=0.0, ref=""):
    recs = [(298.15, 900.0, [(30.0 + extra, 0.0), (4e-3, 1.0)]), (900.0, 1500.0, [(41.0 + extra, 0.0), (-2e5, -2.0)])]
    return cpdata.CompoundRef(f, {p: cpdata.PhaseRef(dh + 1000.0 * i, 40.0 + i, recs[:1 + (i + len(p)) % 2]) for i, p in enumerate(phases)}, ref)


class Store:
    """Folders in scratch; the reference store is what the last load must have left."""
    ops = ("A", "B", "F", "default", "nist", "empty", "absent", "query", "write", "load-W", "write-over", "tamper", "unknown", "broken")

    def __init__(self, root):
        self.root = root
        self.t = tc()
        self.A = {f: make(f, dh, p, ref=r) for f, dh, p, r in (("FeO", -2.6e5, ("S", "L"), "rao1985"), ("Fe", 0.0, ("S",), ""), ("CO2", -3.9e5, ("G",), "chase1998"))}
        self.B = {f: make(f, dh, p, 3.0) for f, dh, p in (("FeO", -9.9e5, ("S",)), ("SiO2", -9.1e5, ("S1", "S2", "L")), ("MgO", 0.0, ()))}
        for n, refs in (("A", self.A), ("B", self.B)):
            os.makedirs(os.path.join(root, n))
            for r in refs.values():
                self.t.write_compound_to_auxi_file(os.path.join(root, n), self.t.Compound(cpdata.dictionary(r)))
        os.makedirs(os.path.join(root, "F"))
        self.F = {}
        for i, f in enumerate(("FeO", "CaO")):
            text, ref = factsage.build(f, ((2, 1), (1,)), names=("S", "L") if i == 0 else ("S1", "L"))
            self.F[f] = ref
            with open(os.path.join(root, "F", "Compound_%d.txt" % i), "w") as fh:
                fh.write(text)
        # files of the other kind must be ignored by each loader
        shutil.copy(os.path.join(root, "F", "Compound_0.txt"), os.path.join(root, "A", "Compound_0.txt"))
        shutil.copy(os.path.join(root, "B", "Compound_SiO2.json"), os.path.join(root, "F", "Compound_SiO2.json"))
        # and so must what an editor, a copy or an archive leaves behind
        for f in ("MnO", "FeO"):
            d = tempfile.mkdtemp(dir=root)
            self.t.write_compound_to_auxi_file(d, self.t.Compound(cpdata.dictionary(make(f, 12345.0, ("Q",)))))
            for name in ("Compound_%s.json~", "Compound_%s.json.bak", ".Compound_%s.json.swp", "~Compound_%s.json", "old_Compound_%s.json",
                         "Compound_%s.jsonl", "%s.json", "Compound_%s.json.txt.old", "Compound_%s_json"):
                shutil.copy(os.path.join(d, "Compound_%s.json" % f), os.path.join(root, "A", name % f))
            shutil.rmtree(d)
        text = factsage.build("FeO", ((1,),), names=("Q",))[0]
        for name in ("Compound_0.txt~", "Compound_0.txt.bak", ".Compound_0.txt.swp", "Copy of Compound_0.txt", "Compound_0.txt2", "0.txt"):
            with open(os.path.join(root, "F", name), "w") as fh:
                fh.write(text)
        # folders with a file that cannot be read
        for n, ext, junk in (("XA", "json", '{"py/object": "nonsense'), ("XF", "txt", "Compound: Fe\nMolar mass\nnonsense")):
            os.makedirs(os.path.join(root, n))
            src = "A" if ext == "json" else "F"
            for f in os.listdir(os.path.join(root, src)):
                if f.startswith("Compound_") and f.endswith("." + ext):
                    shutil.copy(os.path.join(root, src, f), os.path.join(root, n, f))
            with open(os.path.join(root, n, "Compound_C." + ext), "w") as fh:
                fh.write(junk)
        os.makedirs(os.path.join(root, "E"))
        self.shipped = cpdata.shipped("rao")
        self.nist = cpdata.shipped("nist")

    def reset(self):
        w = os.path.join(self.root, "W")
        if os.path.exists(w):
            shutil.rmtree(w)
        os.makedirs(w)
        self.W = {}
        quiet(self.t.load_data_auxi, os.path.join(self.root, "A"))
        self.want = [dict(self.A)]
        self.held = None

    def apply(self, op, sub, case):
        t, root = self.t, self.root
        p = lambda n: os.path.join(root, n)
        if op == "A":
            quiet(t.load_data_auxi, p("A")); self.want = [dict(self.A)]
        elif op == "B":
            quiet(t.load_data_auxi, p("B")); self.want = [dict(self.B)]
        elif op == "F":
            quiet(t.load_data_factsage, p("F")); self.want = [dict(self.F)]
        elif op == "default":
            quiet(t.load_data_auxi); self.want = [self.shipped]
        elif op == "nist":
            quiet(t.load_data_auxi, cpdata.folder("nist")); self.want = [self.nist]
        elif op == "empty":
            quiet(t.load_data_auxi, p("E")); self.want = [{}]
        elif op == "absent":
            try:
                quiet(t.load_data_auxi, p("absent"))
            except Exception:
                pass
            # nothing could be loaded: the store is empty or as before
            now = {} if not t.compounds else None
            if now is not None:
                self.want = [{}]
        elif op == "broken":
            # loads that fail on a file, whatever they leave, do not show in the next load
            for f, n in ((t.load_data_factsage, "XF"), (t.load_data_auxi, "XA")):
                try:
                    quiet(f, p(n))
                    sub.outcome("unreadable file accepted")
                except Exception:
                    sub.outcome("unreadable file refused")
            quiet(t.load_data_auxi, p("B")); self.want = [dict(self.B)]
        elif op == "load-W":
            quiet(t.load_data_auxi, p("W")); self.want = [dict(self.W)]
        elif op in ("write", "write-over"):
            names = sorted(t.compounds)[:2]
            for n in names:
                quiet(t.write_compound_to_auxi_file, p("W"), t.compounds[n])
                self.W[n] = self.want[0][n]
            if op == "write-over" and names:
                other = make(names[0], 77777.0, ("Q", "Z"))
                quiet(t.write_compound_to_auxi_file, p("W"), t.Compound(cpdata.dictionary(other)))
                self.W[names[0]] = other
        elif op == "query":
            out = quiet(t.list_compounds)
            for f, r in self.want[0].items():
                line = [x for x in out.splitlines() if x.split(":")[0].strip() == f]
                sub.expect(len(line) == 1 and all(k in line[0] for k in r.phases), "list", "list_compounds: %r for %s" % (line, f), case)
            for f, r in list(self.want[0].items())[:3]:
                for k in r.phases:
                    for fn in ("Cp", "H", "S", "G"):
                        getattr(t, fn)("%s[%s]" % (f, k), 500.0, 3.0)
                t.molar_mass(f)
                got = t.compounds[f].get_reference()
                want = t.get_datafile_references()[r.reference] if r.reference else ""
                sub.expect(got == want and bool(got) == bool(r.reference), "reference", "%s: %r" % (f, got), case)
        elif op == "unknown":
            for s in ("Xx[S]", "FeO[Q7]", "FeO", "[S]"):
                for fn in ("Cp", "H", "S", "G"):
                    try:
                        r = getattr(t, fn)(s, 300.0)
                    except Exception:
                        continue
                    sub.fail("unknown-accepted", "%s(%r) = %r" % (fn, s, r), case)
        elif op == "tamper":
            # what queries return is the caller's to change
            for f in sorted(t.compounds)[:2]:
                c = t.compounds[f]
                l = c.get_phase_list()
                l.append("nonsense")
                l.sort()
            refs = t.get_datafile_references()
            refs.clear()

    def compare(self, sub, case, full=True):
        t, want = self.t, self.want[0]
        if not sub.expect(sorted(t.compounds) == sorted(want), "store/compounds", lambda: "compounds %r, expected %r"
                          % (sorted(t.compounds), sorted(want)), case):
            return
        for f in (want if full else ()):
            r, c = want[f], t.compounds[f]
            sub.expect(c.formula == f and sorted(c.get_phase_list()) == sorted(r.phases), "store/phases",
                       "%s: %r, expected %r" % (f, c.get_phase_list(), sorted(r.phases)), case)
            for k, ph in r.phases.items():
                T = 600.0
                sub.step()
                got = c.Cp(k, T), c.H(k, T), c.S(k, T)
                tol = ph.scales(T) * 1e-9 + 1e-6
                sub.expect(core.close(got[0], ph.cp(T)[0], 1e-8) and core.close(got[1], ph.h(T), 1e-9, tol)
                           and core.close(got[2], ph.S(T), 1e-9, tol / T * 4), "store/data",
                           lambda: "%s[%s]: %r" % (f, k, got), case)
                v = t.H("%s[%s]" % (f, k), T - 273.15, 2.0)
                sub.expect(core.close(v, got[1] / 3.6e6 / r.molar_mass * 2.0, 1e-9, 1e-9), "store/function", "H(%s[%s]) = %r" % (f, k, v), case)


def histories(sub, item):
    first, depth = item
    root = tempfile.mkdtemp(dir=sub.scratch)
    try:
        st = Store(root)
        for n in range(depth):
            for rest in itertools.product(Store.ops, repeat=n):
                hist = (first,) + rest
                case = dict(history=list(hist))
                with sub.guard("store", case):
                    st.reset()
                    for i, op in enumerate(hist):
                        sub.step()
                        st.apply(op, sub, case)
                        if i == len(hist) - 1:
                            st.compare(sub, case)
                            sub.outcome("compounds=%d" % len(st.want[0]))
                sub.state(hist)
                sub.trace(list(hist))
    finally:
        shutil.rmtree(root)


def written(sub, item):
    """Write and read back: the same behaviour, whatever the data."""
    kinds, = item
    t = tc()
    d = tempfile.mkdtemp(dir=sub.scratch)
    try:
        for k2, mag, phases, ref in itertools.product(list(TERMS) + [None], MAG, (("S",), ("L", "S1"), ("S (alpha)", "G", "aq")),
                                                      ("", "rao1985", "Some \"quoted\" source, 100 °C")):
            recs = [(298.15, 777.7, TERMS[kinds])] + ([(777.7, 1234.5678901, TERMS[k2])] if k2 else [])
            if not any(r[2] for r in recs):
                continue
            c = cpdata.CompoundRef("Ca(OH)2", {p: cpdata.PhaseRef(-98765.4321 - i, 83.123456789012 + i, recs, MAG[mag] if i == 0 else None)
                                              for i, p in enumerate(phases)}, ref)
            case = dict(kinds=[kinds, k2], mag=mag, phases=list(phases), reference=ref)
            with sub.guard("written", case):
                sub.step(2)
                orig = t.Compound(cpdata.dictionary(c))
                before = behave(orig, c)
                t.write_compound_to_auxi_file(d, orig)
                sub.expect(os.listdir(d) == ["Compound_Ca(OH)2.json"], "written/file", repr(os.listdir(d)), case)
                sub.expect(behave(orig, c) == before, "written/original", "writing changed the compound", case)
                quiet(t.load_data_auxi, d)
                sub.expect(list(t.compounds) == ["Ca(OH)2"], "written/compounds", repr(list(t.compounds)), case)
                back = t.compounds["Ca(OH)2"]
                sub.expect(back is not orig and behave(back, c) == before, "written/behaviour", lambda: "%r read back as %r" % (before, behave(back, c)), case)
                sub.expect(back.reference == ref, "written/reference", repr(back.reference), case)
                # written again from what was read: same again
                t.write_compound_to_auxi_file(d, back)
                quiet(t.load_data_auxi, d)
                sub.expect(behave(t.compounds["Ca(OH)2"], c) == before, "written/second", "second generation differs", case)
            sub.state(repr(case))
            sub.outcome("written")
            sub.trace(case)
    finally:
        shutil.rmtree(d)


def behave(c, ref):
    out = [c.formula, repr(c.molar_mass), c.get_phase_list()]
    for p in sorted(ref.phases):
        for T in (250.0, 298.15, 500.0, 777.7, 900.0, 1234.5678901, 2000.0):
            out.append((p, T, repr(c.Cp(p, T)), repr(c.H(p, T)), repr(c.S(p, T)), repr(c.G(p, T))))
    return out


def convert(sub, item):
    """FactSage folder -> auxi folder -> store: nothing changes on the way."""
    t = tc()
    shapes = [((1,),), ((2, 1), (1,)), ((3,), (2, 2), (1,)), ((5, 4), (1, 1))]
    for sh, numbering, style in itertools.product(shapes, ("restart", "serial"), ("plain", "sci", "short")):
        a, b = tempfile.mkdtemp(dir=sub.scratch), tempfile.mkdtemp(dir=sub.scratch)
        case = dict(shape=[list(x) for x in sh], numbering=numbering, style=style, formula=item)
        try:
            text, ref = factsage.build(item, sh, numbering, style)
            with open(os.path.join(a, "Compound_1.txt"), "w") as f:
                f.write(text)
            with sub.guard("convert", case):
                sub.step(3)
                quiet(t.load_data_factsage, a)
                before = behave(t.compounds[item], ref)
                for c in t.compounds.values():
                    t.write_compound_to_auxi_file(b, c)
                quiet(t.load_data_auxi, b)
                sub.expect(list(t.compounds) == [item], "convert/compounds", repr(list(t.compounds)), case)
                sub.expect(behave(t.compounds[item], ref) == before, "convert/behaviour", "differs after conversion", case)
                same_compound(sub, t.compounds[item], ref, "convert", case)
            sub.state(repr(case))
            sub.trace(case)
        finally:
            shutil.rmtree(a); shutil.rmtree(b)


def shipped_all(sub, name):
    """Every shipped compound is stored under its formula and survives writing and reading."""
    t = tc()
    d = tempfile.mkdtemp(dir=sub.scratch)
    try:
        with sub.guard("shipped", name):
            quiet(t.load_data_auxi, cpdata.folder(name))
            refs = cpdata.shipped(name)
            sub.expect(sorted(t.compounds) == sorted(refs), "shipped/compounds", repr(sorted(t.compounds)), name)
            before = {f: behave(t.compounds[f], refs[f]) for f in refs}
            for c in list(t.compounds.values()):
                t.write_compound_to_auxi_file(d, c)
            quiet(t.load_data_auxi, d)
            sub.expect(sorted(t.compounds) == sorted(refs), "shipped/rewritten", repr(sorted(t.compounds)), name)
            for f in refs:
                sub.step()
                sub.expect(behave(t.compounds[f], refs[f]) == before[f], "shipped/behaviour", f, dict(compound=f))
                sub.state((name, f))
                sub.trace(f)
    finally:
        shutil.rmtree(d)


NAMES = ("plain", "with blank", "v[1]", "a*b", "what?", "[x", "Ünïcode", ".hidden", "100%", "Compound_FeO.json", "{a,b}", "a~", "~", "$HOME", "UPPER", "x.json", "deep/er/still", "#1", "!x")


def folders(sub, item):
    """Whatever a folder is called and however it is referred to, its compounds are loaded; folders with similar names stay apart."""
    import pathlib
    first, = item
    t = tc()
    root = tempfile.mkdtemp(dir=sub.scratch)
    here = os.getcwd()
    texts = {}
    try:
        for i, n in enumerate(NAMES):
            os.makedirs(os.path.join(root, n))
            c = make(("FeO", "CaO", "SiO2", "Fe", "CO2")[i % 5], -1000.0 * (i + 1))
            d = make("Al2O3", -7.0 * (i + 1))
            for x in (c, d):
                t.write_compound_to_auxi_file(os.path.join(root, n), t.Compound(cpdata.dictionary(x)))
            text, ref = factsage.build(("MnO", "MgO", "TiO2")[i % 3], ((1 + i % 3, 1), (1,)), names=("S", "L"))
            with open(os.path.join(root, n, "Compound_1.txt"), "w") as f:
                f.write(text)
            texts[n] = ({c.formula: c, d.formula: d}, {ref.formula: ref})
        os.chdir(root)
        forms = {"absolute": lambda n: os.path.join(root, n), "slash": lambda n: os.path.join(root, n) + os.sep, "relative": lambda n: os.path.join(".", n),
                 "bare": lambda n: n, "up": lambda n: os.path.join(root, "plain", "..", n), "path": lambda n: pathlib.Path(root) / n}
        for second in NAMES:
            for form, kind in itertools.product(forms, (0, 1)):
                case = dict(first=first, folder=second, form=form, kind=("auxi", "factsage")[kind])
                with sub.guard("folders", case):
                    for n in (first, second):
                        quiet((t.load_data_auxi, t.load_data_factsage)[kind], forms[form](n))
                        want = texts[n][kind]
                        sub.step()
                        if not sub.expect(sorted(t.compounds) == sorted(want), "folders/compounds", lambda: "%r loaded: compounds %r, expected %r" % (n, sorted(t.compounds), sorted(want)), case):
                            break
                        for f, r in want.items():
                            for k, ph in r.phases.items():
                                sub.expect(core.close(t.compounds[f].H(k, 298.15), ph.h(298.15), 1e-9, 1e-6), "folders/data", lambda: "%s[%s] of %r: %r" % (f, k, n, t.compounds[f].H(k, 298.15)), case)
                    else:
                        if not kind:
                            out = tempfile.mkdtemp(dir=root)
                            w = os.path.join(out, second)
                            os.makedirs(w)
                            for c in t.compounds.values():
                                t.write_compound_to_auxi_file(os.path.relpath(w) if form in ("relative", "bare") else w + os.sep if form == "slash" else w, c)
                            sub.expect(sorted(os.listdir(w)) == sorted("Compound_%s.json" % f for f in texts[second][0]), "folders/written", lambda: repr(os.listdir(w)), case)
                            shutil.rmtree(out)
                sub.state(repr(case))
                sub.trace(case)
        sub.outcome("folders")
    finally:
        os.chdir(here)
        shutil.rmtree(root)


def run(chk):
    q = chk.quick
    depth = 3 if q else 4
    chk.parallel(histories, [(op, depth) for op in Store.ops])
    chk.parallel(written, [(k,) for k in TERMS])
    chk.parallel(convert, ["FeO", "C2H4"])
    chk.parallel(folders, [(n,) for n in (NAMES[:6] if q else NAMES)])
    chk.parallel(shipped_all, ["rao", "nist"])
    chk.bounds = dict(history_depth=depth, operations=list(Store.ops), folders=["auxi A", "auxi B", "FactSage F", "shipped rao", "shipped nist", "empty", "absent", "written W"], folder_names="%d names x 6 ways to refer to a folder x both kinds of file, in pairs" % len(NAMES))
    chk.assumptions = ["after a load from a folder that does not exist the store is either empty or unchanged"]
