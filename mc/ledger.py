"""Ledger alphabet, CSV report readers and reference bookkeeping used by F02-F04 and B04/B05."""
import csv, itertools, os
from datetime import datetime, date, timedelta
from auxi.modelling.financial.des import GeneralLedgerStructure, GeneralLedger, AccountType
from auxi.core.reporting import ReportFormat

TYPE = {
    "Bank/Default": "asset", "Bank": "asset", "Inventory": "asset", "Fixed Assets/Van": "asset",
    "Account Payable": "liability", "Long Term Borrowing/Loan": "liability",
    "Retained Income/Retained Earnings": "equity", "Retained Income": "equity",
    "Sales": "revenue", "Sales/Delivery": "revenue", "Other Income/Rent": "revenue", "Other Income": "revenue",
    "Expense/Wages": "expense", "Expense": "expense", "Tax/Income Tax Expense": "expense",
    "Cost of Sales": "expense", "Cost of Sales/Fuel": "expense", "Dividends": "expense",
    "Unallocated Income Statement/Gross Profit": "revenue",
    "Unallocated Income Statement/Income Summary": "revenue",
}
# names that contain those of other accounts or sections, repeat under other types, differ in case or blanks, or lie deeper
ODD = {
    "Expense/Cost of Sales Audit": "expense", "Tax/Cost of Sales": "expense", "Other Income/Cost of Sales Refund": "revenue",
    "Cost of Sales/Sales": "expense", "Cost of Sales/Expense": "expense", "Sales/Cost of Sales": "revenue", "Sales/Expense": "revenue",
    "Long Term Borrowing/Default": "liability", "Inventory/Loan": "asset", "Retained Income/Default": "equity", "Expense/Default": "expense",
    "Sales/Delivery/Local": "revenue", "Sales/Delivery/Local/Express": "revenue", "Cost of Sales/Fuel/Diesel": "expense",
    "Cost of Sales/Fuel/Diesel/Winter": "expense", "Other Income/Rent/Flat": "revenue", "Expense/Wages/Overtime/Sunday": "expense",
    "Fixed Assets/Van/Wheel/Tyre": "asset", "Fixed Assets/Van 2": "asset", "Fixed Assets/van": "asset", "Expense/wages": "expense", "Expense/Wages ": "expense",
    "Expense/Sales": "expense", "Dividends/Expenses": "expense", "Other Income/Bank": "revenue", "Bank/Sales": "asset",
}
KIND = dict(TYPE, **ODD)

# fractions of a cent: totals must be those of the amounts, not of the rounded rows
AMOUNTS = [100.25 + 1 / 3, 17.5 + 1 / 3, 10 / 3, 1000.75 + 1 / 3]

# amounts of every magnitude, and pairs that leave next to nothing
MAGNITUDES = [0.0, 1e-3, 0.01, 0.25, 0.3, 0.49, 0.5, 0.51, 0.99, 1.0, 999.99, 1234567.89, 12345678901.25]
REST = [1e-3, 0.01, 0.25, 0.49, 0.5, 0.99]


def magnitude_pairs():
    """(a, b): every ordered pair of magnitudes, and pairs b = a +- a small rest."""
    out = [(a, b) for a in MAGNITUDES for b in MAGNITUDES]
    for a in (2.0, 100.25, 1234567.0):
        for r in REST:
            out += [(a, a + r), (a + r, a)]
    return out


# limits and the moments around them, to the microsecond
LIMITS = [datetime(2016, 6, 30), datetime(2016, 6, 30, 12, 30, 15, 250000), datetime(2016, 6, 30, 23, 59, 59, 999999), datetime(2016, 7, 1), date(2016, 6, 30)]
_US = timedelta(microseconds=1)
MOMENTS = sorted({l + d for l in LIMITS[:4] for d in (-_US, 0 * _US, _US)}
                 | {datetime(2016, 6, 30, 12, 30, 15), datetime(2016, 6, 30, 12, 30, 16), datetime(2016, 6, 30, 23, 59, 59),
                    datetime(2016, 7, 1, 0, 0, 1), datetime(2015, 6, 30), datetime(2017, 6, 30)})


def last_moment(limit):
    return limit if isinstance(limit, datetime) else datetime(limit.year, limit.month, limit.day, 23, 59, 59, 999999)


def first_moment(limit):
    return limit if isinstance(limit, datetime) else datetime(limit.year, limit.month, limit.day)


def structure():
    g = GeneralLedgerStructure("G")
    for p in KIND:
        parts = p.split("/")
        a = g[parts[0]]
        for c in parts[1:]:
            if a[c] is None:
                a.create_account(c, "%03d" % (len(a.accounts) * 10 + 5))
            a = a[c]
    return g


def odd_histories(posted, plain="Bank/Default"):
    """Histories of one or two postings over accounts with awkward names; ``posted(i)`` completes posting i."""
    odd = sorted(ODD)
    amounts = (100.25, 17.5)
    for a in odd:
        for b in [plain, "Sales", "Expense/Wages", "Cost of Sales/Fuel"] + odd:
            if a != b:
                yield [(a, b, amounts[0]) + posted(0)]
                if b not in ODD:
                    yield [(b, a, amounts[0]) + posted(0)]
    for a in odd + ["Expense/Wages", "Cost of Sales/Fuel", "Sales", "Bank/Default", "Fixed Assets/Van", "Long Term Borrowing/Loan"]:
        for b in odd:
            if a != b:
                yield [(a, "Account Payable", amounts[0]) + posted(0), ("Account Payable", b, amounts[1]) + posted(1)]


def post(gl, dt, cr, amount, when, source="/M/E/A/act", name="tx", description="", closing=""):
    t = gl.create_transaction(name, description=description, tx_date=when, dt_account=dt, cr_account=cr,
                              source=source, amount=amount)
    if "c" in closing:
        t.is_closing_cr_account = True
    if "d" in closing:
        t.is_closing_dt_account = True
    return t


def rows(chk, fn, **kw):
    """Call a report method in CSV format and read the cells back."""
    base = os.path.join(chk.scratch, "rpt-%d" % os.getpid())
    fn(format=ReportFormat.csv, output_path=base, **kw)
    with open(base + ".csv") as f:
        r = [x for x in csv.reader(f)]
    return r


def num(s):
    s = s.strip()
    if s.startswith("(") and s.endswith(")"):
        return -float(s[1:-1])
    return float(s)


def read_balance(r):
    out = dict(asset={}, liability={}, equity={}, totals={})
    sect = None
    assert r[0][0] == "Assets" and r[0][2] == "Liabilities and Equity", "header %r" % r[0]
    for row in r[1:-1]:
        a, av, n, nv, tot = row
        if a and not set(a) <= {"-"}:
            if a in out["asset"]:
                raise AssertionError("asset %s listed twice" % a)
            out["asset"][a] = num(av)
        if n in ("Liabilities", "Owners' Equity"):
            sect = "liability" if n == "Liabilities" else "equity"
        elif n == "Total liabilities":
            out["totals"]["liability"] = num(tot)
        elif n == "Total owners' equities":
            out["totals"]["equity"] = num(tot)
        elif n and not set(n) <= {"-"}:
            if n in out[sect]:
                raise AssertionError("%s listed twice" % n)
            out[sect][n] = num(nv)
    last = r[-1]
    assert last[0] == "Total" and last[2] == "Total", "last row %r" % last
    out["totals"]["asset"] = num(last[1])
    out["totals"]["both"] = num(last[4])
    return out


def read_income(r):
    out = dict(revenue={}, cos={}, expense={})
    sect = None
    assert r[0] == ["", "Debit", "Credit"], "header %r" % r[0]
    for n, d, c in r[1:]:
        if n == "Revenues":
            sect = "revenue"
        elif n == "Cost of Sales" and d == "" and c == "":
            sect = "cos"
        elif n == "Expenses":
            sect = "expense"
        elif n.startswith("Gross Revenues"):
            out["gross"] = num(c)
        elif n == "Total Expenses":
            out["total_expenses"] = num(d)
        elif n == "Net Income":
            out["net"] = num(c)
        elif n and not set(n) <= {"-"}:
            if n in out[sect]:
                raise AssertionError("%s listed twice" % n)
            out[sect][n] = num(c if sect == "revenue" else d)
    return out


def drop0(d):
    return {k: v for k, v in d.items() if abs(v) > 0.0051}


def same(d, e):
    return set(d) == set(e) and all(abs(d[k] - e[k]) < 0.0051 for k in d)


# Paths of components with long names
LONG = "/Metallurgical operations of the group"
LONG_PATHS = [LONG, LONG + "/Smelter", LONG + "/Smelter number one, northern section", LONG + "/Smelter number one, northern section/Furnace",
              LONG + "/Smelter number one, southern section/Furnace", LONG + " (2)/Smelter"]
LONG_QUERIES = LONG_PATHS + [LONG + "/Smelter number one", LONG[:-1]]


# ---------------------------------------------------------------- one ledger, reported between changes
_D = datetime(2016, 4, 15)
_END = datetime(2016, 6, 30)
POSTS = {"pay": ("Bank/Default", "Account Payable", 100.25, _D, "", "/M/E/A/act"), "sale": ("Bank/Default", "Sales", 64.5, _END, "", "/M/E/B/act"),
         "wage": ("Expense/Wages", "Account Payable", 17.5, _D, "", "/M/E/A"), "close": ("Sales", "Retained Income", 8.125, _END, "d", None),
         "late": ("Cost of Sales/Fuel", "Bank/Default", 3.5, datetime(2016, 8, 1), "", "/M/E/A/act"), "old": ("Inventory", "Sales", 33.0, datetime(2015, 1, 1), "c", "/M/E/A/act"),
         "both": ("Bank/Default", "Retained Income/Retained Earnings", 5.5, _D, "cd", "/M/E")}
NAMES = ("tx", "tx", "Payment")
EDITS = ("amount", "date", "account", "swap", "drop")
QUERIES = ("balance", "balance-open", "income", "income-open", "income-path", "list", "list-open", "list-path")


def _want(q, txs):
    kind, rng = (q.split("-") + ["range"])[:2]
    start = datetime(2016, 1, 1) if rng != "open" and kind != "balance" else datetime.min
    end = _END if rng != "open" else datetime.max
    txs = [t for t in txs if start <= t[3] <= end]
    if rng == "path":
        txs = [t for t in txs if t[5] is not None and (t[5] == "/M/E/A" or t[5].startswith("/M/E/A/"))]
    if kind == "list":
        return [(str(t[3]), t[5] or "", t[0], t[1], "%.2f" % t[2]) for t in sorted(txs, key=lambda t: t[3])]
    sums = {}
    for dt, cr, amount, when, closing, src in txs:
        if kind == "income" and closing:
            continue
        sums[dt] = sums.get(dt, 0) + amount
        sums[cr] = sums.get(cr, 0) - amount
    sections = ("asset", "liability", "equity") if kind == "balance" else ("revenue", "expense")
    return {s: {k: v if s in ("asset", "expense") else -v for k, v in sums.items() if KIND[k] == s} for s in sections}


def _ask(chk, gl, q):
    kind, rng = (q.split("-") + ["range"])[:2]
    kw = {} if rng == "open" else dict(end=_END) if kind == "balance" else dict(start=datetime(2016, 1, 1), end=_END)
    if rng == "path":
        kw["component_path"] = "/M/E/A"
    if kind == "balance":
        return read_balance(rows(chk, gl.balance_sheet, **kw))
    if kind == "income":
        got = read_income(rows(chk, gl.income_statement, **kw))
        got["expense"].update(got.pop("cos"))
        return got
    return [(r[0], r[1], r[3], r[4], r[5]) for r in rows(chk, gl.transaction_list, **kw)[1:-1]]


def interleaved(chk, kind, depth):
    """Every sequence of postings, corrections and reports on one ledger; every report of ``kind`` is compared."""
    s = structure()
    own = [q for q in QUERIES if q.startswith(kind)]
    other = [q for q in ("balance", "income", "list") if q != kind]
    ops = list(POSTS) + list(EDITS) + own + other

    def work(c, first):
        for rest in itertools.product(ops, repeat=depth - 2):
            for last in own:
                seq = first + rest + (last,)
                with c.guard("interleaved", seq):
                    play(c, seq)

    def play(c, seq):
        gl, txs = GeneralLedger("GL", s), []
        for i, op in enumerate(seq):
            if op in POSTS:
                dt, cr, amount, when, closing, src = POSTS[op]
                txs.append([dt, cr, amount + i // 2, when, closing, src])
                post(gl, dt, cr, amount + i // 2, when, src, NAMES[i % 3], closing=closing)
            elif op in EDITS:
                if not txs:
                    return
                t, w = gl.transactions[-1], txs[-1]
                if op == "amount":
                    t.amount = w[2] = w[2] + 1.125
                elif op == "date":
                    t.tx_date = w[3] = datetime(2016, 8, 2) if w[3] <= _END else _D
                elif op == "account":
                    t.dt_account = w[0] = "Inventory" if w[0] != "Inventory" else "Expense/Wages"
                elif op == "swap":
                    gl.transactions.reverse()
                    txs.reverse()
                else:
                    del gl.transactions[0], txs[0]
            else:
                got = _ask(c, gl, op)
                if op in own:
                    want = _want(op, txs)
                    ok = got == want if kind == "list" else all(same(got[k], want[k]) for k in want)
                    c.expect(ok, "interleaved/" + op, lambda: "step %d gave %r, expected %r" % (i, got, want), seq)
            c.step()
        c.trace(seq)

    chk.parallel(work, [p for p in itertools.product(ops, repeat=2) if p[0] in POSTS])
    chk.bounds["interleaved"] = "every sequence of %d postings, corrections and reports (%d kinds) on one ledger that starts with a posting" % (depth, len(ops))
