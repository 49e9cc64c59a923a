"""F04: transaction list = filter + date order + total, for every history, range and path."""
import itertools
from datetime import datetime, date, timedelta
from auxi.modelling.financial.des import GeneralLedger
from mc import ledger as L

S = L.structure()
START, END = datetime(2016, 3, 1), datetime(2016, 6, 30)
DATES = [datetime(2016, 4, 15), START - timedelta(seconds=1), START, END, END + timedelta(seconds=1), datetime(2016, 7, 2)]
# moments of one day
DATES += [datetime(2016, 4, 15, 0, 0, 0, 1), datetime(2016, 4, 15, 0, 0, 0, 500000), datetime(2016, 4, 15, 0, 0, 1), datetime(2016, 4, 15, 9, 5), datetime(2016, 4, 15, 12), datetime(2016, 4, 15, 23, 59, 59, 999999)]
SIDES = [("Bank/Default", "Sales"), ("Expense/Wages", "Bank/Default"), ("Inventory", "Account Payable")]
SRC = ["/M/E/A/act", "/M/E/AB/act", "/M/E/A", "/M/E", "/M/F/A/act", None]
PATHS = ["", "/M/E", "/M/E/A", "/M/E/A/act", "/none"]
RANGES = ["open", "datetime", "date", "string", "empty", "point"]
NAMES = ["Rent paid", "act"]
DAY = (0, 6, 7, 8, 9, 10, 11)  # indices of the moments of one day


def limits(rng):
    return {"open": {}, "datetime": dict(start=START, end=END), "date": dict(start=START.date(), end=END.date()),
            "string": dict(start="2016-03-01", end="2016-06-30"), "empty": dict(start=END, end=START),
            "point": dict(start=END, end=END)}[rng]


def inside(d, rng):
    if rng == "open":
        return True
    if rng == "empty":
        return False
    if rng == "point":
        return d == END
    if rng == "datetime":
        return START <= d <= END
    return START.date() <= d.date() <= END.date()


def below(src, path):
    if path == "":
        return True
    return src is not None and (src == path or src.startswith(path + "/"))


def history(chk, seq, queries, amounts=L.AMOUNTS, sides=SIDES):
    """seq: [(dateix, srcix, nameix)]"""
    gl = GeneralLedger("GL", S)
    txs = []
    for i, (d, s, n) in enumerate(seq):
        when = DATES[d]
        desc = None if i == 0 else "desc %d\nsecond line" % i
        dt, cr = sides[i % 3]
        amt = amounts[i % len(amounts)]
        L.post(gl, dt, cr, amt, when, source=SRC[s], name=NAMES[n], description=desc)
        txs.append((when, SRC[s], NAMES[n], dt, cr, amt, desc))
        chk.step()
    for rng, path in queries:
        case = dict(range=rng, path=path, transactions=[(str(t[0]), t[1], t[2], t[5]) for t in txs])
        r = L.rows(chk, gl.transaction_list, component_path=path, **limits(rng))
        want = [t for t in txs if inside(t[0], rng) and below(t[1], path)]
        cells = []
        for t in sorted(want, key=lambda t: t[0]):
            src = t[1] if t[1] is not None else ""
            name = "" if t[1] is not None and t[1].endswith(t[2]) else t[2]
            cells.append([str(t[0]), src, name, t[3], t[4], "%.2f" % t[5], t[6] or ""])
        chk.expect(r[0] == ["Date", "Source", "Tx Name", "Debit Account", "Credit Account", "Amount", "Description"],
                   "header", lambda: "%r" % r[0], case)
        body, last = r[1:-1], r[-1]
        chk.expect([x[0] for x in body] == [x[0] for x in cells], "dates", lambda: "dates %r expected %r" % ([x[0] for x in body], [x[0] for x in cells]), case)
        chk.expect(body == cells or sorted(body) != sorted(cells), "order", lambda: "rows of one moment %r, made in the order %r" % (body, cells), case)
        chk.expect(sorted(body) == sorted(cells), "rows", lambda: "rows %r expected %r" % (body, cells), case)
        chk.expect(last[2] == "Total" and abs(L.num(last[5]) - sum(t[5] for t in want)) < 0.00501, "total", lambda: "total row %r" % last, case)
        chk.trace(case)
        chk.state((rng, path, tuple(map(tuple, sorted(cells)))))
        chk.outcome("listed%d/%d" % (len(want), len(txs)))
    chk.expect(len(gl.transactions) == len(seq) and [t.tx_date for t in gl.transactions] == [t[0] for t in txs],
               "query/pure", "reporting changed the ledger", seq)


TEXTS = [None, "", "Rent", "  padded  ", "two\nlines", "a\n\nb\n", "x, \"y\"", "'q'", "007", "1e3", "-", "Total", "w" * 300, "\u00fc\u20ac", "tab\there", "None", "0"]


def texts(chk):
    """Names and descriptions of any text, one transaction after another."""
    for name, desc in itertools.product(TEXTS[1:], TEXTS):
        with chk.guard("texts", [name, desc]):
            gl = GeneralLedger("GL", S)
            L.post(gl, "Bank/Default", "Sales", 1.25, DATES[0], source="/M/E/A", name=name, description=desc)
            L.post(gl, "Bank/Default", "Sales", 2.5, DATES[0], source="/M/E/A", name="second", description="other")
            chk.step()
            r = L.rows(chk, gl.transaction_list)
            chk.eq([len(r), len(r[1])], [4, 7], "texts/rows", [name, desc])
            chk.expect(r[1][2].strip() in (name.strip(), "" if "/M/E/A".endswith(name) else name.strip()), "texts/name", lambda: "name %r" % r[1][2], [name, desc])
            chk.eq(r[1][6].strip(), (desc or "").strip(), "texts/description", [name, desc])
            chk.eq([r[2][2], r[2][6]], ["second", "other"], "texts/second", [name, desc])
            chk.trace()


def ranges(chk):
    """All moments of a day as limits, and component paths with long names."""
    def make(entries):
        gl = GeneralLedger("GL", S)
        for i, (when, src) in enumerate(entries):
            L.post(gl, "Bank/Default", "Sales", L.AMOUNTS[0], when, source=src, name="Tx %d" % i)
            chk.step()
        return gl
    moments = sorted(DATES[i] for i in DAY)
    gl = make([(m, "/M") for m in moments])
    for a, b in itertools.product(moments, repeat=2):
        with chk.guard("limits", [str(a), str(b)]):
            r = L.rows(chk, gl.transaction_list, start=a, end=b)
            chk.eq([x[0] for x in r[1:-1]], [str(m) for m in moments if a <= m <= b], "limits", [str(a), str(b)])
            chk.trace()
    gl = make([(DATES[0] + timedelta(days=i), p) for i, p in enumerate(L.LONG_PATHS)])
    for path in L.LONG_QUERIES:
        with chk.guard("longpaths", path):
            r = L.rows(chk, gl.transaction_list, component_path=path)
            chk.eq([x[1] for x in r[1:-1]], [p for p in L.LONG_PATHS if below(p, path)], "longpaths", path)
            chk.trace()


def work(chk, item):
    if item[0] == "amounts":
        for a in item[1]:
            for seq in ([(0, 0, 0), (0, 0, 0)], [(3, 0, 0), (1, 0, 0)], [(3, 2, 0), (0, 2, 0), (2, 0, 1)]):
                with chk.guard("amounts", (seq, a)):
                    history(chk, seq, [("datetime", ""), ("open", "/M/E/A")], a)
        return
    if item[0] == "day":
        # everything in one day, in every order of the moments, with names, accounts and amounts rising and falling
        d0 = item[1]
        for d1, d2 in itertools.product(DAY, DAY):
            for n in ((0, 0, 0), (1, 0, 1), (0, 1, 0), (1, 1, 0)):
                for s in ((0, 0, 0), (1, 0, 2), (2, 1, 0), (0, 5, 1)):
                    for sides, amounts in ((SIDES, L.AMOUNTS), (SIDES[::-1], L.AMOUNTS[::-1])):
                        seq = [(d0, s[0], n[0]), (d1, s[1], n[1]), (d2, s[2], n[2])]
                        with chk.guard("day", seq):
                            history(chk, seq, [("datetime", "")], amounts, sides)
        return
    first, depth, dates, srcs, queries = item
    menu = list(itertools.product(dates, srcs, (0,))) + ([(0, 0, 1)] if depth == 1 else [])
    for p in itertools.product(menu, repeat=depth):
        seq = [first] + list(p)
        with chk.guard("history%d" % (depth + 1), seq):
            history(chk, seq, queries)


def run(chk):
    allq = list(itertools.product(RANGES, PATHS))
    with chk.guard("empty", []):
        history(chk, [], allq)
    for d, s, n in itertools.product(range(len(DATES)), range(len(SRC)), range(2)):
        with chk.guard("history1", (d, s, n)):
            history(chk, [(d, s, n)], allq)
    # dates without a time on the transaction side
    with chk.guard("date-typed", []):
        gl = GeneralLedger("GL", S)
        for i, dd in enumerate((date(2016, 3, 1), date(2016, 2, 29), date(2016, 6, 30), date(2016, 7, 1))):
            L.post(gl, "Bank", "Sales", L.AMOUNTS[i], dd)
        for rng, n in (("open", 4), ("date", 2), ("string", 2), ("datetime", 2)):
            r = L.rows(chk, gl.transaction_list, **limits(rng))
            chk.step(); chk.trace()
            chk.eq(len(r) - 2, n, "date-typed/" + rng, [rng])
    quick2 = [("datetime", ""), ("datetime", "/M/E/A"), ("open", "/M/E"), ("open", "/M/E/A")]
    items = [((d, s, 0), 1, range(6), range(6), allq) for d in range(6) for s in range(6)]
    D3, S3 = (0, 1, 3), (0, 1, 2)
    q3 = [("datetime", "/M/E/A"), ("open", "")]
    if not chk.quick:
        D3, S3, q3 = (0, 1, 2, 3, 4), (0, 1, 2, 3), quick2
    items += [((d, s, 0), 2, D3, S3, q3) for d in D3 for s in S3]
    chk.bounds["histories"] = "length 2 over 6 dates x 6 sources each, length 3 over %d dates x %d sources each" % (len(D3), len(S3))
    pairs = L.magnitude_pairs()
    pairs += [(-a, b) for a, b in pairs]
    items += [("amounts", pairs[i::16]) for i in range(16)]
    chk.bounds["amounts"] = "%d pairs of amounts up to %g" % (len(pairs), max(L.MAGNITUDES))
    items += [("day", d) for d in DAY]
    ranges(chk)
    texts(chk)
    chk.bounds["texts"] = "%d names by %d descriptions" % (len(TEXTS) - 1, len(TEXTS))
    L.interleaved(chk, "list", 4 if chk.quick else 5)
    chk.bounds["moments"] = "every three of seven moments of one day, names, sources, accounts and amounts rising and falling"
    chk.parallel(work, items)
