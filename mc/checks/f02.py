"""F02: balance sheet = double-entry sums, for every posting history over all account-type pairs."""
import itertools
from datetime import datetime, date
from auxi.modelling.financial.des import GeneralLedger, GeneralLedgerStructure
from mc import ledger as L

END = datetime(2016, 6, 30)
DATES = dict(before=datetime(2016, 1, 15), at=END, after=datetime(2016, 6, 30, 0, 0, 1), far=datetime(2017, 1, 1))
ACC = ["Bank/Default", "Inventory", "Account Payable", "Long Term Borrowing/Loan", "Retained Income",
       "Retained Income/Retained Earnings", "Sales", "Expense/Wages", "Cost of Sales/Fuel"]
SMALL = ["Bank/Default", "Account Payable", "Retained Income", "Sales", "Expense/Wages"]
S = L.structure()


def history(chk, seq, end, endkey, canon=True):
    """seq: [(dt, cr, amount, datename)]"""
    gl = GeneralLedger("GL", S)
    for dt, cr, amt, dn in seq:
        L.post(gl, dt, cr, amt, DATES[dn])
        chk.step()
    case = dict(end=endkey, transactions=[list(x) for x in seq])
    want = dict(asset={}, liability={}, equity={})
    for dt, cr, amt, dn in seq:
        if endkey != "open" and dn in (("after", "far") if endkey == "datetime" else ("far",)):
            continue
        t = L.KIND[dt]
        if t in want:
            want[t][dt] = want[t].get(dt, 0) + (amt if t == "asset" else -amt)
        t = L.KIND[cr]
        if t in want:
            want[t][cr] = want[t].get(cr, 0) + (-amt if t == "asset" else amt)
    kw = {} if end is None else dict(end=end)
    got = L.read_balance(L.rows(chk, gl.balance_sheet, **kw))
    types = "+".join("%s>%s" % (L.KIND[x[0]], L.KIND[x[1]]) for x in seq)
    for sect in want:
        chk.expect(L.same(got[sect], want[sect]), "%s/%s" % (sect, endkey),
                   lambda: "%s section %r, expected %r" % (sect, got[sect], want[sect]), case)
        chk.eq(got["totals"].get(sect), float(sum(want[sect].values())), "total/" + sect, case, atol=0.00501)
    chk.eq(got["totals"]["both"], float(sum(want["liability"].values()) + sum(want["equity"].values())), "total/liabilities+equity", case, atol=0.00501)
    if not any(L.KIND[x[0]] in ("revenue", "expense") or L.KIND[x[1]] in ("revenue", "expense") for x in seq):
        chk.expect(abs(got["totals"]["asset"] - got["totals"]["both"]) < 0.011, "balanced", lambda: "totals %r" % got["totals"], case)
    # reporting is a pure query
    chk.expect(len(gl.transactions) == len(seq), "query/pure", "reporting changed the ledger", case)
    chk.trace(case)
    chk.state((endkey, tuple((k, tuple(sorted(L.drop0(v).items()))) for k, v in want.items())))
    chk.outcome(types if len(seq) == 1 else "len%d" % len(seq))


def moments(chk, limit):
    """Pairs of transactions at every two moments around the end of the range."""
    last = L.last_moment(limit)
    for a, b in itertools.product(L.MOMENTS, repeat=2):
        case = dict(end=repr(limit), transactions=[str(a), str(b)])
        with chk.guard("moments", case):
            gl = GeneralLedger("GL", S)
            want = dict(asset={}, liability={}, equity={})
            for t, amt, dt, cr in ((a, 100.25, "Bank/Default", "Account Payable"), (b, 17.5, "Inventory", "Retained Income")):
                L.post(gl, dt, cr, amt, t)
                chk.step()
                if t <= last:
                    want["asset"][dt] = amt
                    want[L.KIND[cr]][cr] = amt
            got = L.read_balance(L.rows(chk, gl.balance_sheet, end=limit))
            for sect in want:
                chk.expect(L.same(got[sect], want[sect]), "moments/" + sect, lambda: "%s section %r, expected %r" % (sect, got[sect], want[sect]), case)
            tot = sum(want["asset"].values())
            chk.expect(abs(got["totals"]["asset"] - tot) < 0.006 and abs(got["totals"]["both"] - tot) < 0.006, "moments/totals", lambda: repr(got["totals"]), case)
            chk.trace(case)
            chk.state((repr(limit), a, b))
            chk.outcome("moments %d" % len(want["asset"]))


SIDES = [("Bank/Default", "Account Payable"), ("Inventory", "Retained Income"), ("Account Payable", "Bank/Default"), ("Bank/Default", "Inventory"),
         ("Account Payable", "Retained Income"), ("Bank/Default", "Sales"), ("Expense/Wages", "Account Payable")]


def work(chk, item):
    kind, arg = item
    if kind == "names":
        for seq in arg:
            with chk.guard("names", seq):
                history(chk, seq, END, "datetime")
        return
    if kind == "amounts":
        for s0, s1 in itertools.product(SIDES, SIDES):
            for a, b in arg:
                seq = [s0 + (a, "before"), s1 + (b, "at")]
                with chk.guard("amounts", seq):
                    history(chk, seq, END, "datetime")
        return
    if kind == "first":            # arg = first tx; every second tx after it
        for dt, cr in itertools.product(ACC, ACC):
            for dn in ("before", "at", "after"):
                seq = [arg, (dt, cr, L.AMOUNTS[1], dn)]
                with chk.guard("history2", seq):
                    history(chk, seq, END, "datetime")
    elif kind == "three":
        accs, dns = arg[1], arg[2]
        for p in itertools.product(itertools.product(accs, accs, dns), repeat=2):
            seq = [arg[0]] + [(d, c, L.AMOUNTS[i + 1], n) for i, (d, c, n) in enumerate(p)]
            with chk.guard("history3", seq):
                history(chk, seq, END, "datetime")
    elif kind == "four":
        accs = SMALL
        for p in itertools.product(itertools.product(accs, accs), repeat=3):
            seq = [arg] + [(d, c, L.AMOUNTS[i + 1], "before") for i, (d, c) in enumerate(p)]
            with chk.guard("history4", seq):
                history(chk, seq, END, "datetime")


TYPE_W = {}
WIDE = dict(asset=[], liability=[], equity=[])


def wide_structure():
    g = GeneralLedgerStructure("W")
    for v in WIDE.values():
        del v[:]
    for root, sect in (("Fixed Assets", "asset"), ("Long Term Borrowing", "liability"), ("Retained Income", "equity")):
        for i in range(14):
            p = "%s/w%02d" % (root, i)
            g[root].create_account("w%02d" % i, "%03d" % (500 + i))
            WIDE[sect].append(p); TYPE_W[p] = sect
    return g


def wide(chk, item):
    """Balance sheets with every combination of section lengths up to 14 accounts each."""
    na = item
    S2 = wide_structure()
    counts = range(15)
    for nl, ne in itertools.product(counts, counts):
        gl = GeneralLedger("GL", S2)
        want = dict(asset={}, liability={}, equity={})
        dt = WIDE["asset"][:na]
        cr = WIDE["liability"][:nl] + WIDE["equity"][:ne]
        case = dict(assets=na, liabilities=nl, equities=ne)
        with chk.guard("wide", case):
            # each account once on its own side, the other side cycling over the opposite list
            other = cr or ["Sales"]
            seq = [(d, other[i % len(other)], 10.0 + i) for i, d in enumerate(dt)]
            back = dt or ["Expense"]
            seq += [(back[i % len(back)], c, 5.25 + i) for i, c in enumerate(cr)]
            for d, c, amt in seq:
                L.post(gl, d, c, amt, DATES["before"])
                chk.step()
                if d in TYPE_W:
                    want["asset"][d] = want["asset"].get(d, 0) + amt
                if c in TYPE_W:
                    s = TYPE_W[c]
                    want[s][c] = want[s].get(c, 0) + amt
            got = L.read_balance(L.rows(chk, gl.balance_sheet, end=END))
            for sect in want:
                chk.expect(L.same(got[sect], want[sect]), "wide/" + sect, lambda: "%s section %r, expected %r" % (sect, got[sect], want[sect]), case)
                chk.eq(got["totals"].get(sect), float(sum(want[sect].values())), "wide/total-" + sect, case, atol=0.00501)
            chk.trace(case)
            chk.state(("wide", na, nl, ne))
            chk.outcome("wide")


def run(chk):
    ends = [(END, "datetime"), (date(2016, 6, 30), "date"), ("2016-06-30", "string"), (None, "open")]
    with chk.guard("empty", []):
        for e, k in ends:
            history(chk, [], e, k)
    for dt, cr in itertools.product(sorted(L.TYPE), sorted(L.TYPE)):
        for dn in DATES:
            for e, k in ends:
                for amt in (100.25, 0, -5.5):
                    if amt != 100.25 and (k != "datetime" or dn != "before"):
                        continue
                    with chk.guard("history1/" + k, (dt, cr, amt, dn)):
                        history(chk, [(dt, cr, amt, dn)], e, k)
    chk.bounds["histories"] = "length 1: %d accounts squared x 4 dates x 4 end kinds; length 2: %d accounts squared x 3 dates; length 3: %s" % (
        len(L.TYPE), len(ACC), "5 accounts squared, in range" if chk.quick else "6 accounts squared x 2 dates; length 4: 5 accounts squared")
    items = [("first", (d, c, L.AMOUNTS[0], n)) for d, c in itertools.product(ACC, ACC) for n in ("before", "at", "after")]
    if chk.quick:
        items += [("three", ((d, c, L.AMOUNTS[0], "before"), SMALL, ("before",))) for d, c in itertools.product(SMALL, SMALL)]
    else:
        six = SMALL + ["Inventory"]
        items += [("three", ((d, c, L.AMOUNTS[0], n), six, ("before", "after"))) for d, c in itertools.product(six, six) for n in ("before", "after")]
        items += [("four", (d, c, L.AMOUNTS[0], "before")) for d, c in itertools.product(SMALL, SMALL)]
    pairs = L.magnitude_pairs()
    items += [("amounts", pairs[i::16]) for i in range(16)]
    chk.bounds["amounts"] = "%d pairs of amounts from %g to %g on %d squared pairs of accounts" % (len(pairs), min(L.MAGNITUDES), max(L.MAGNITUDES), len(SIDES))
    odd = list(L.odd_histories(lambda i: (("before", "at")[i],)))
    items += [("names", odd[i::16]) for i in range(16)]
    chk.bounds["names"] = "%d histories over %d accounts whose names are alike, repeat or are deep" % (len(odd), len(L.ODD))
    chk.parallel(work, items)
    chk.parallel(wide, range(15))
    L.interleaved(chk, "balance", 4 if chk.quick else 5)
    chk.parallel(moments, L.LIMITS)
    chk.bounds["moments"] = "%d limits by pairs of %d moments a microsecond to a year away" % (len(L.LIMITS), len(L.MOMENTS))
    chk.bounds["section_lengths"] = "0-14 asset accounts by 0-14 liability and equity accounts"
