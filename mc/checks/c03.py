"""C03: every report format renders the same table. Every table of the alphabet and every real report of the
ledger alphabet, in every format and after every other rendering, decoded back into cells and compared."""
import contextlib, csv, io, itertools, os, re, shutil
from datetime import datetime
from auxi.core.reporting import Report, ReportFormat as F
from auxi.modelling.financial.des import GeneralLedger, GeneralLedgerStructure
from auxi.modelling.financial import reporting as fr
from mc import ledger as L
from mc.checks.c02 import txs, accounts

FORMATS = [F.printout, F.string, F.txt, F.csv, F.latex]
EXT = {F.txt: ".txt", F.csv: ".csv", F.latex: ".tex"}


class Table(Report):
    def _generate_table_(self):
        return [list(r) for r in self.data_source]


def cell(x):
    return "" if x is None else str(x).strip()


def cells(table):
    return [[cell(c) for c in r] for r in table]


def read_simple(text):
    lines = text.split("\n")
    while lines and not lines[-1].strip():
        lines.pop()
    assert len(lines) >= 2 and re.fullmatch(r"[- ]+", lines[1]), "no header rule in %r" % text[:300]
    spans = [(m.start(), m.end()) for m in re.finditer(r"-+", lines[1])]
    out = []
    for i, ln in enumerate(lines):
        if i == 1:
            continue
        row = []
        for k, (a, b) in enumerate(spans):
            e = spans[k + 1][0] if k + 1 < len(spans) else None
            row.append(ln[a:e].strip())
        out.append(row)
    return out


UNTEX = [("\\textbackslash{}", "\0"), ("\\textasciitilde{}", "~"), ("\\^{}", "^"), ("\\ensuremath{<}", "<"), ("\\ensuremath{>}", ">"),
         ("\\&", "&"), ("\\%", "%"), ("\\$", "$"), ("\\#", "#"), ("\\_", "_"), ("\\{", "{"), ("\\}", "}"), ("\0", "\\")]


def untex(s):
    for a, b in UNTEX:
        s = s.replace(a, b)
    return s.strip()


def read_latex(text):
    assert text.lstrip().startswith("\\begin{tabular}") and text.rstrip().endswith("\\end{tabular}"), "not a LaTeX table: %r" % text[:200]
    out = []
    for ln in text.strip().split("\n")[1:-1]:
        if ln.strip() == "\\hline":
            continue
        ln = ln.rstrip()
        assert ln.endswith("\\\\"), "row without end: %r" % ln
        out.append([untex(c) for c in re.split(r"(?<!\\)&", ln[:-2])])
    return out


def read_csv(text):
    rows = list(csv.reader(io.StringIO(text, newline="")))
    while rows and rows[-1] == []:      # the console form ends with an empty line
        rows.pop()
    return [[c.strip() for c in r] for r in rows]


READ = {F.printout: read_simple, F.string: read_simple, F.txt: read_simple, F.csv: read_csv, F.latex: read_latex}


def snapshot(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            with open(os.path.join(root, f), "rb") as h:
                out[os.path.relpath(os.path.join(root, f), d)] = h.read()
    return out


def produce(chk, call, fmt, path, case, d):
    """Render once; returns the text; checks where it went."""
    before = snapshot(d)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = call(fmt)
    after = snapshot(d)
    target = (os.path.relpath(path + EXT[fmt], d) if path and fmt in EXT else None)
    changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and k != target)
    chk.expect(not changed, "other-files/" + fmt.name, lambda: "rendering changed %r" % changed, case)
    if fmt == F.string:
        chk.expect(isinstance(r, str) and out.getvalue() == "", "string", lambda: "string format gave %r and printed %r" % (type(r), out.getvalue()[:80]), case)
        return r
    if target:
        chk.expect(out.getvalue() == "", "file-and-print/" + fmt.name, lambda: "printed %r" % out.getvalue()[:100], case)
        chk.expect(target in after, "file/" + fmt.name, lambda: "file %s was not written" % target, case)
        return after.get(target, b"").decode("utf-8")
    return out.getvalue()


def case_dir(chk):
    d = os.path.join(chk.scratch, "c03-%d" % os.getpid())
    if os.path.isdir(d):
        for root, _, files in os.walk(d):
            for f in files:
                os.unlink(os.path.join(root, f))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "bystander.txt"), "w") as f:
        f.write("x")
    with open(os.path.join(d, "rpt"), "w") as f:
        f.write("no extension")
    return d


def compare(chk, name, make, want, case, pairs):
    """make(path) -> call(fmt); want: table of the underlying report."""
    want = cells(want)
    for with_path in (True, False):
        for f1, f2 in (pairs if with_path else [(None, f) for f in FORMATS]):
            d = case_dir(chk)
            path = os.path.join(d, "rpt") if with_path else None
            c = dict(case, formats=[f1.name if f1 else None, f2.name], file=with_path)
            with chk.guard(name, c):
                call = make(path)
                if f1 is not None:
                    produce(chk, call, f1, path, c, d)
                    chk.step()
                text = produce(chk, call, f2, path, c, d)
                chk.step()
                got = READ[f2](text)
                chk.expect(got == want, "cells/" + f2.name, lambda: "cells differ: " + firstdiff(want, got), c)
                chk.trace(c)
                chk.outcome(f2.name + (" file" if with_path and f2 in EXT else ""))
            shutil.rmtree(d, ignore_errors=True)


def firstdiff(a, b):
    if len(a) != len(b):
        return "%d rows instead of %d" % (len(b), len(a))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "row %d: %r instead of %r" % (i, y, x)
    return "none"


VALUES = ["Sales", "", "0", "007", "-0.01", "12345678.91", "1e3", "nan", "(5.00)", "--------", "a_b & c%", "x, \"y\"", "Ünï", "a  b", "inf", None, 3, 0.1, 1234567.891,
          "$5#{2}^~<>", "back\\slash", "True", "100.50"]


def tables(chk):
    vals = VALUES
    for v in vals:
        yield [["Name"], [v]]
    for v, w in itertools.product(vals, vals):
        yield [["Name", "Amount"], [v, w]]
        yield [["Name", "Amount"], [v, w], [w, v]]
        yield [["A", "B", "C"], ["x", v, w]]
        if not chk.quick:
            for x in vals:
                yield [["A", "B", "C"], [v, w, x]]
    for v in vals:
        yield [["Date", "B b", "Long header"], ["r1", v, "z"], ["r2", "1.5", v], [v, v, v]]
    yield [["Only", "Header"]]


def interesting(t):
    # a row of blanks cannot be told apart from no row in the text layouts
    return not any(all(cell(c) == "" for c in r) for r in t[1:])


def work_tables(chk, item):
    k, n = item
    pairs = [(None, f) for f in FORMATS]
    for i, t in enumerate(tables(chk)):
        if i % n != k or not interesting(t):
            continue
        case = dict(table=[[repr(c) for c in r] for r in t])
        src = [list(r) for r in t]
        compare(chk, "table", lambda path: (lambda rep: (lambda fmt: rep.render(fmt)))(Table(src, path)), t, case, pairs)
        chk.expect(src == [list(r) for r in t] or repr(src) == repr([list(r) for r in t]), "source-changed", "rendering changed the data source", case)
        chk.state(repr(t))


LEDGERS = dict(
    empty=[],
    small=[("Bank/Default", "Sales/Delivery", 100.25)],
    large=[("Bank/Default", "Sales", 12345678.91), ("Expense/Wages", "Bank/Default", 999999.99), ("Cost of Sales/Fuel", "Account Payable", 1000000.0)],
    loss=[("Expense/Wages", "Account Payable", 2500000.5), ("Bank/Default", "Other Income/Rent", 0.01)],
    many=[("Bank/Default", "Sales", 1.0), ("Inventory", "Bank/Default", 2.0), ("Tax/Income Tax Expense", "Long Term Borrowing/Loan", 3.0),
          ("Bank", "Retained Income/Retained Earnings", 4.0), ("Cost of Sales", "Inventory", 123456789012.5)])


def gl_of(name):
    g = GeneralLedger("GL", L.structure())
    for i, (d, c, a) in enumerate(LEDGERS[name]):
        # not in date order: a report may sort its rows but not the ledger
        L.post(g, d, c, a, datetime(2016, 1, 1 + (3 * i + 2) % 5), source="/M/E_1/A", name=["007", "a & b", "50%"][i % 3], description=["", "1e3", "x, \"y\""][i % 3])
    return g


REPORTS = dict(structure=lambda g: g.structure.report, transactions=lambda g: g.transaction_list, balance=lambda g: g.balance_sheet, income=lambda g: g.income_statement)
ARGS = dict(structure=[{}], transactions=[{}, dict(start=datetime(2016, 1, 2)), dict(component_path="/M/E_1")], balance=[{}, dict(end=datetime(2016, 1, 2))], income=[{}, dict(start=datetime(2016, 1, 2), end=datetime(2016, 1, 2))])


def table_of(kind, g, kw):
    if not hasattr(Report, "_generate_table_"):
        # the table itself is not accessible: the string form is the reference
        return read_simple(REPORTS[kind](g)(format=F.string, **kw))
    if kind == "structure":
        return fr.GeneralLedgerStructure(g.structure)._generate_table_()
    cls = dict(transactions=fr.TransactionList, balance=fr.BalanceSheet, income=fr.IncomeStatement)[kind]
    return cls(g, **kw)._generate_table_()


def work_reports(chk, item):
    lname, kind = item
    for kw in ARGS[kind]:
        g = gl_of(lname)
        case = dict(ledger=lname, report=kind, arguments={k: str(v) for k, v in kw.items()})
        with chk.guard("report", case):
            before = (txs(g), [(a.name, a.path, a.number, a.description) for a in accounts(g.structure.accounts)])
            want = table_of(kind, g, kw)
            pairs = list(itertools.product([None] + FORMATS, FORMATS))
            compare(chk, "report/" + kind, lambda path: (lambda fmt: REPORTS[kind](g)(format=fmt, output_path=path, **kw)), want, case, pairs)
            after = (txs(g), [(a.name, a.path, a.number, a.description) for a in accounts(g.structure.accounts)])
            chk.expect(before == after, "report/changed", "rendering changed the reported ledger", case)
            chk.state((lname, kind, repr(kw)))


def contents(chk):
    """The transaction list and structure report hold the ledger's own data (figures of the statements: F02, F03)."""
    for lname in LEDGERS:
        with chk.guard("contents", lname):
            g = gl_of(lname)
            t = cells(table_of("transactions", g, {}))
            body = t[1:1 + len(g.transactions)]
            want = [[str(x.tx_date), x.source, x.name, x.dt_account, x.cr_account, "%.2f" % x.amount, x.description.strip()] for x in g.transactions]
            chk.step()
            chk.expect(sorted(body) == sorted(want), "contents/transactions", lambda: "rows %r, expected %r" % (body[:3], want[:3]), lname)
            chk.trace(lname)
    # formats without a table leave no files behind and print nothing
    d = case_dir(chk)
    for fmt in (F.matplotlib, F.png):
        with chk.guard("pictures", fmt.name):
            produce(chk, lambda f: Table([["A"], ["1"]], os.path.join(d, "rpt")).render(f), fmt, os.path.join(d, "rpt"), fmt.name, d)
    # the default is the console
    with chk.guard("default", []):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            Table([["A", "B"], ["1.50", "x"]]).render()
        chk.expect(read_simple(out.getvalue()) == [["A", "B"], ["1.50", "x"]], "default-format", "default rendering %r" % out.getvalue(), "render()")
    # a rendering that fails leaves nothing behind for the next one of the same report
    def method(rep):
        def call(fmt, path):
            rep.output_path = path
            return rep.render(fmt)
        return call
    for f1, f2 in itertools.product(FORMATS, FORMATS):
        for ext in EXT:
            with chk.guard("failed-rendering", [f1.name, ext.name, f2.name]):
                d = case_dir(chk)
                g = gl_of("small")
                good, bad = os.path.join(d, "rpt"), os.path.join(d, "no-such-folder", "rpt")
                objects = [fr.BalanceSheet(g), fr.IncomeStatement(g), fr.TransactionList(g)]
                if hasattr(Report, "_generate_table_"):
                    objects.append(Table([["A", "B"], ["1.50", "x"]]))
                calls = [(type(r).__name__, method(r)) for r in objects]
                calls += [(k, lambda fmt, path, k=k: REPORTS[k](g)(format=fmt, output_path=path)) for k in REPORTS]
                for kind, render in calls:
                    want = read_simple(render(F.string, None))
                    produce(chk, lambda f: render(f, good), f1, good, [f1.name], d)
                    try:
                        render(ext, bad)
                    except OSError:
                        chk.outcome("failed rendering")
                    for f in EXT.values():
                        if os.path.exists(good + f):
                            os.unlink(good + f)
                    chk.step()
                    text = produce(chk, lambda f: render(f, good), f2, good, [kind, f1.name, ext.name, f2.name], d)
                    chk.expect(READ[f2](text) == want, "failed-rendering/" + f2.name, lambda: "cells differ: " + firstdiff(want, READ[f2](text)), [kind, f1.name, ext.name, f2.name])
                    chk.trace()
                shutil.rmtree(d, ignore_errors=True)
    d = case_dir(chk)
    # rendering twice into one file replaces it
    for fmt in EXT:
        with chk.guard("replace", fmt.name):
            p = os.path.join(d, "again")
            Table([["A"], ["first table, much longer"], ["x"]], p).render(fmt)
            Table([["A"], ["b"]], p).render(fmt)
            chk.step(2)
            with open(p + EXT[fmt]) as f:
                got = READ[fmt](f.read())
            chk.expect(got == [["A"], ["b"]], "replace/" + fmt.name, lambda: "second rendering left %r" % got, fmt.name)


PATHS = ["rpt", "a b", "r.p.t", "rpt.", ".rpt", "rpt.txt", "rpt.csv", "rpt.tex", "rpt.v1.2", "\u00fcn\u00ef", "RPT", "rpt-2016-01-01 (1)", "100%", "sub/rpt", "sub.d/rpt", "~rpt", "$HOME", "{0}", "x" * 120]


def named_files(chk, item):
    """The file written is the one named, with the extension of the format, whatever the name looks like."""
    name, kind = item
    d = case_dir(chk)
    for s in ("sub", "sub.d"):
        os.makedirs(os.path.join(d, s), exist_ok=True)
    for other in ("rpt.csv", "rpt.txt", "rpt.tex", "a.txt", "r.csv", "sub.csv"):
        with open(os.path.join(d, other), "w") as f:
            f.write("other")
    t = [["A", "B"], ["x y", "1.50"], ["z", "0.00"]]
    g = gl_of("small")
    want = cells(t if kind == "table" else table_of(kind, g, {}))
    for fmt in FORMATS:
        for relative in (False, True):
            p = os.path.join(d, name)
            case = dict(report=kind, path=name, format=fmt.name, relative=relative)
            with chk.guard("path", case):
                here = os.getcwd()
                try:
                    if relative:
                        os.chdir(d)
                    a = name if relative else p
                    call = (lambda f: Table(t, a).render(f)) if kind == "table" else (lambda f: REPORTS[kind](g)(format=f, output_path=a))
                    text = produce(chk, call, fmt, p, case, d)
                finally:
                    os.chdir(here)
                chk.step()
                got = READ[fmt](text)
                chk.expect(got == want, "path/cells", lambda: "cells differ: " + firstdiff(want, got), case)
                chk.trace(case)
                chk.state(("path", kind, name, fmt.name))


def large(chk, item):
    """Tables of every size in the list, and cells of every length."""
    rows, cols, width = item
    t = [["H%d" % j for j in range(cols)]] + [["%s%d.%02d" % ("w" * (width if (i + j) % 7 == 3 else 0), i, j) for j in range(cols)] for i in range(rows)]
    case = dict(rows=rows, columns=cols, width=width)
    compare(chk, "large", lambda path: (lambda fmt: Table([list(r) for r in t], path).render(fmt)), t, case, [(None, f) for f in FORMATS])
    chk.state(("size",) + tuple(item))


BROKEN = ["plain", "one\ntwo", "one\n\nthree", "x, 1\n\"y\" & z", "007\n1e3", " lead\n  tail ", ""]


def lines_of(cells_):
    return [ln.strip() for c in cells_ for ln in str(c).split("\n") if ln.strip()]


def broken(chk, item):
    """Cells of several lines. In the text forms such a row takes several lines: each column must hold the lines of its
    cells in order; LaTeX takes a line break for a blank; CSV must return the cell."""
    kind, n, k = item
    for i, combo in enumerate(itertools.product(BROKEN, repeat=3)):
        if i % n != k or not any("\n" in c for c in combo):
            continue
        if kind == "table":
            t = [["Name", "Text", "Amount"], [combo[0], combo[1], "1.5"], ["r2", combo[2], combo[0]]]
            make = lambda path: (lambda fmt: Table([list(r) for r in t], path).render(fmt))
        else:
            g = GeneralLedger("GL", L.structure())
            L.post(g, "Bank/Default", "Sales", 100.25, datetime(2016, 1, 2), source="/M/E_1/A", name=combo[0] or "n", description=combo[1])
            L.post(g, "Bank", "Sales", 0.5, datetime(2016, 1, 3), source="/M/E_1/A", name="second", description=combo[2])
            t = table_of("transactions", g, {})
            got = [r[-1] for r in t[1:3]]
            chk.expect(lines_of(got) == lines_of([combo[1], combo[2]]), "lines/ledger", lambda: "descriptions %r" % got, list(combo))
            make = lambda path: (lambda fmt: g.transaction_list(format=fmt, output_path=path))
        want = cells(t)
        for with_path in (True, False):
            for f in FORMATS:
                d = case_dir(chk)
                path = os.path.join(d, "rpt") if with_path else None
                c = dict(kind=kind, cells=list(combo), format=f.name, file=with_path)
                with chk.guard("lines", c):
                    text = produce(chk, make(path), f, path, c, d)
                    chk.step()
                    if f == F.csv:
                        got = read_csv(text)
                        exp = want
                    elif f == F.latex:
                        body = text[text.index("\n") + 1:text.rindex("\\end{tabular}")].replace("\\hline", "")
                        got = [[" ".join(untex(x).split()) for x in re.split(r"(?<!\\)&", r)] for r in body.split("\\\\") if r.strip()]
                        exp = [[" ".join(x.split()) for x in r] for r in want]
                    else:
                        rows = read_simple(text)
                        got = [lines_of(x) for x in zip(*rows)]
                        exp = [lines_of(x) for x in zip(*want)]
                    chk.expect(got == exp, "lines/" + f.name, lambda: "%r instead of %r" % (got, exp), c)
                    chk.trace(c)
                shutil.rmtree(d, ignore_errors=True)


def run(chk):
    contents(chk)
    kinds_ = (["table"] if hasattr(Report, "_generate_table_") else []) + ["ledger"]
    chk.parallel(broken, [(k, 8, i) for k in kinds_ for i in range(8)])
    chk.bounds["lines"] = "every three of %d cells of up to three lines, in tables and as names and descriptions of transactions" % len(BROKEN)
    if hasattr(Report, "_generate_table_"):
        sizes = [(r, c, w) for r in (1, 2, 9, 10, 11, 50, 99, 100, 101, 255, 256, 257, 1000) for c in (1, 2, 7, 30) for w in (0, 40) if r * c < 8000]
        sizes += [(3, 3, w) for w in (79, 80, 81, 100, 255, 256, 257, 1000, 5000)]
        chk.parallel(large, sizes)
        chk.bounds["sizes"] = "%d combinations of up to 1000 rows, 30 columns, 5000 characters" % len(sizes)
    chk.parallel(named_files, list(itertools.product(PATHS, (["table"] if hasattr(Report, "_generate_table_") else []) + list(REPORTS))))
    chk.bounds["paths"] = PATHS
    chk.parallel(work_reports, list(itertools.product(LEDGERS, REPORTS)))
    if hasattr(Report, "_generate_table_"):
        chk.parallel(work_tables, [(k, 16) for k in range(16)])
    chk.bounds["tables"] = "all one- and two-cell rows over %d cell values, three-row mixtures; reports: 5 ledgers x 4 reports x all ordered format pairs" % len(VALUES)
