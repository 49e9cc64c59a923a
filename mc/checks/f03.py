"""F03: income statement = revenue less expense, for every posting history."""
import itertools
from datetime import datetime, date
from auxi.modelling.financial.des import GeneralLedger
from mc import ledger as L

START, END = datetime(2016, 3, 1), datetime(2016, 6, 30)
DATES = dict(mid=datetime(2016, 4, 15), before=datetime(2016, 2, 29, 23, 59, 59), start=START, end=END,
             after=datetime(2016, 7, 1))
ACC = ["Bank/Default", "Sales", "Sales/Delivery", "Other Income/Rent", "Expense/Wages", "Expense",
       "Cost of Sales", "Cost of Sales/Fuel", "Retained Income"]
SMALL = ["Bank/Default", "Sales", "Other Income/Rent", "Expense/Wages", "Cost of Sales/Fuel"]
S = L.structure()
SRC = dict(inside="/M/E/A/act", at="/M/E/A", sibling="/M/E/AB/act", above="/M/E")


def history(chk, seq, rng="datetime", path=""):
    """seq: [(dt, cr, amount, datename, closing, source)]"""
    gl = GeneralLedger("GL", S)
    for dt, cr, amt, dn, clo, src in seq:
        L.post(gl, dt, cr, amt, DATES[dn], closing=clo, source=SRC[src])
        chk.step()
    case = dict(range=rng, path=path, transactions=[list(x) for x in seq])
    rev, exp = {}, {}
    for dt, cr, amt, dn, clo, src in seq:
        if clo or (dn in ("before", "after") and rng != "open"):
            continue
        if path and src not in ("inside", "at"):
            continue
        for acc, s in ((dt, 1), (cr, -1)):
            if L.KIND[acc] == "expense":
                exp[acc] = exp.get(acc, 0) + s * amt
            elif L.KIND[acc] == "revenue":
                rev[acc] = rev.get(acc, 0) - s * amt
    kw = dict(component_path=path)
    if rng == "datetime":
        kw.update(start=START, end=END)
    elif rng == "date":
        kw.update(start=START.date(), end=END.date())
    elif rng == "string":
        kw.update(start="2016-03-01", end="2016-06-30")
    got = L.read_income(L.rows(chk, gl.income_statement, **kw))
    cos = {k: v for k, v in exp.items() if k.startswith("Cost of Sales")}
    oth = {k: v for k, v in exp.items() if not k.startswith("Cost of Sales")}
    for sect, want in (("revenue", rev), ("cos", cos), ("expense", oth)):
        chk.expect(L.same(got[sect], want), "section/%s" % sect,
                   lambda: "%s section %r, expected %r" % (sect, got[sect], want), case)
    R, C, O = sum(rev.values()), sum(cos.values()), sum(oth.values())
    chk.eq(got.get("gross"), float(R - C), "gross", case, atol=0.00501)
    chk.eq(got.get("total_expenses"), float(O), "total-expenses", case, atol=0.00501)
    chk.eq(got.get("net"), float(R - C - O), "net", case, atol=0.00501)
    chk.expect(len(gl.transactions) == len(seq), "query/pure", "reporting changed the ledger", case)
    chk.trace(case)
    chk.state((rng, path, tuple(sorted(L.drop0(rev).items())), tuple(sorted(L.drop0(exp).items()))))
    chk.outcome("net%s%s" % ("+" if R - C - O > 0 else "-" if R - C - O < 0 else "0", len(seq)))


def moments(chk, limits):
    """A transaction at every moment around every pair of limits."""
    lo, hi = limits
    for t, path in itertools.product(L.MOMENTS, ("", "/M/E/A")):
        case = dict(start=repr(lo), end=repr(hi), transaction=str(t))
        with chk.guard("moments", case):
            gl = GeneralLedger("GL", S)
            L.post(gl, "Bank/Default", "Sales", 100.25, t)
            L.post(gl, "Expense/Wages", "Bank/Default", 17.5, t)
            chk.step(2)
            inside = (lo is None or t >= L.first_moment(lo)) and (hi is None or t <= L.last_moment(hi))
            kw = dict(component_path=path)
            if lo is not None:
                kw.update(start=lo)
            if hi is not None:
                kw.update(end=hi)
            got = L.read_income(L.rows(chk, gl.income_statement, **kw))
            chk.expect(L.same(got["revenue"], {"Sales": 100.25} if inside else {}) and L.same(got["expense"], {"Expense/Wages": 17.5} if inside else {})
                       and abs(got["net"] - 82.75 * inside) < 0.006, "moments", lambda: "%r, expected the transactions %s" % (got, "inside" if inside else "left out"), case)
            chk.trace(case)
            chk.state((repr(limits), t, path))
            chk.outcome("moments %s" % inside)


def longpaths(chk):
    """Components with long names, queried at each of their paths."""
    gl = GeneralLedger("GL", S)
    amounts = [10.0 * 2 ** i for i in range(len(L.LONG_PATHS))]
    for p, a in zip(L.LONG_PATHS, amounts):
        L.post(gl, "Bank/Default", "Sales", a, DATES["mid"], source=p)
        L.post(gl, "Expense/Wages", "Bank/Default", a / 4, DATES["mid"], source=p)
        chk.step(2)
    for path in L.LONG_QUERIES:
        with chk.guard("longpaths", path):
            rev = sum(a for p, a in zip(L.LONG_PATHS, amounts) if p == path or p.startswith(path + "/"))
            got = L.read_income(L.rows(chk, gl.income_statement, component_path=path))
            chk.eq((got["revenue"].get("Sales", 0.0), got["expense"].get("Expense/Wages", 0.0), got["net"]), (rev, rev / 4, rev * 0.75), "longpaths", path, atol=0.00501)
            chk.trace(path)


SIDES = [("Bank/Default", "Sales"), ("Bank/Default", "Other Income/Rent"), ("Expense/Wages", "Bank/Default"), ("Cost of Sales/Fuel", "Bank/Default"), ("Bank/Default", "Expense")]


def work(chk, item):
    kind, arg = item
    if kind == "names":
        for seq in arg:
            with chk.guard("names", seq):
                history(chk, seq)
        return
    if kind == "amounts":
        for s0, s1 in itertools.product(SIDES, SIDES):
            for a, b in arg:
                seq = [s0 + (a, "mid", "", "inside"), s1 + (b, "mid", "", "inside")]
                with chk.guard("amounts", seq):
                    history(chk, seq)
        return
    if kind == "two":
        for dt, cr in itertools.product(ACC, ACC):
            for dn, clo in (("mid", ""), ("end", ""), ("after", ""), ("mid", "c")):
                seq = [arg, (dt, cr, L.AMOUNTS[1], dn, clo, "inside")]
                with chk.guard("history2", seq):
                    history(chk, seq)
    else:
        accs, n = arg[1], arg[2]
        for p in itertools.product(itertools.product(accs, accs), repeat=n):
            seq = [arg[0]] + [(d, c, L.AMOUNTS[i + 1], "mid", "", "inside") for i, (d, c) in enumerate(p)]
            with chk.guard("history%d" % (n + 1), seq):
                history(chk, seq)


def run(chk):
    with chk.guard("empty", []):
        for r in ("datetime", "date", "string", "open"):
            history(chk, [], r)
    for dt, cr in itertools.product(sorted(L.TYPE), sorted(L.TYPE)):
        for dn in DATES:
            for clo in ("", "c", "d", "cd"):
                for rng in ("datetime", "date", "string", "open"):
                    if clo and rng != "datetime":
                        continue
                    with chk.guard("history1/" + rng, (dt, cr, dn, clo)):
                        history(chk, [(dt, cr, 100.25, dn, clo, "inside")], rng)
        for src in SRC:
            for path in ("", "/M/E/A"):
                with chk.guard("history1/path", (dt, cr, src, path)):
                    history(chk, [(dt, cr, 100.25, "mid", "", src), (dt, cr, 7.5, "mid", "", "inside")], path=path)
    items = [("two", (d, c, L.AMOUNTS[0], n, k, "inside")) for d, c in itertools.product(ACC, ACC)
             for n, k in (("mid", ""), ("start", ""), ("before", ""), ("mid", "d"))]
    items += [("more", ((d, c, L.AMOUNTS[0], "mid", "", "inside"), SMALL, 2)) for d, c in itertools.product(SMALL, SMALL)]
    if not chk.quick:
        items += [("more", ((d, c, L.AMOUNTS[0], "mid", "", "inside"), SMALL, 3)) for d, c in itertools.product(SMALL, SMALL)]
    chk.bounds["histories"] = "length 1 over %d accounts squared x dates x closing x range kinds; length 2 over %d accounts squared x 4 placements each; length %s over 5 accounts squared" % (len(L.TYPE), len(ACC), "3" if chk.quick else "3 and 4")
    pairs = L.magnitude_pairs()
    items += [("amounts", pairs[i::16]) for i in range(16)]
    chk.bounds["amounts"] = "%d pairs of amounts from %g to %g on %d squared pairs of accounts" % (len(pairs), min(L.MAGNITUDES), max(L.MAGNITUDES), len(SIDES))
    odd = list(L.odd_histories(lambda i: ("mid", "", "inside")))
    items += [("names", odd[i::16]) for i in range(16)]
    chk.bounds["names"] = "%d histories over %d accounts whose names are alike, repeat or are deep" % (len(odd), len(L.ODD))
    chk.parallel(work, items)
    longpaths(chk)
    L.interleaved(chk, "income", 4 if chk.quick else 5)
    limits = [(a, b) for a in [None] + L.LIMITS for b in [None] + L.LIMITS if None in (a, b) or L.first_moment(a) <= L.last_moment(b)]
    chk.parallel(moments, limits)
    chk.bounds["moments"] = "%d pairs of limits by %d moments" % (len(limits), len(L.MOMENTS))
