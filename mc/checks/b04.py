"""B04: year-end closing. Every multiset of transactions over all account-type pairs, dates at, before
and after the year boundaries; the entity is driven through its public prepare/run calls."""
import itertools
from datetime import datetime, timedelta
from dateutil.relativedelta import relativedelta
from auxi.core.time import Clock, TimePeriod
from auxi.modelling.business.structure import Entity
from mc import ledger as L

S = L.structure()
T0 = datetime(2016, 3, 1)
Y1, Y2 = T0 + relativedelta(years=1), T0 + relativedelta(years=2)
SEC = timedelta(seconds=1)
DATES = dict(mid=datetime(2016, 9, 1), first=T0, last=Y1 - SEC, lastms=Y1 - timedelta(milliseconds=500),
             next=Y1, nextmid=datetime(2017, 9, 1), nextlast=Y2 - SEC, third=Y2)
RE = "Retained Income/Retained Earnings"
GP = "Unallocated Income Statement/Gross Profit"
IS = "Unallocated Income Statement/Income Summary"
ACC = ["Bank/Default", "Account Payable", "Sales", "Sales/Delivery", "Cost of Sales", "Cost of Sales/Fuel",
       "Other Income/Rent", "Expense/Wages", "Tax/Income Tax Expense"]
SMALL = ["Bank/Default", "Sales/Delivery", "Cost of Sales/Fuel", "Other Income/Rent", "Expense/Wages"]


def bal(txs, pred=lambda t: True):
    """Debit minus credit per account."""
    b = {}
    for t in txs:
        if pred(t):
            b[t.dt_account] = b.get(t.dt_account, 0) + t.amount
            b[t.cr_account] = b.get(t.cr_account, 0) - t.amount
    return b


def net(seq, lo, hi):
    n = 0
    for dt, cr, amt, dn in seq:
        if lo <= DATES[dn] < hi:
            if L.KIND[cr] in ("revenue", "expense"):
                n += amt
            if L.KIND[dt] in ("revenue", "expense"):
                n -= amt
    return n


def history(chk, seq, gran=TimePeriod.month, start=T0, late=True):
    """Run the entity over two closings. Transactions are in the ledger when their period runs."""
    e = Entity("E", S)
    clock = Clock("C", start_datetime=start, timestep_period_duration=gran)
    count = {TimePeriod.month: 30, TimePeriod.year: 4, TimePeriod.week: 112}[gran]
    e.prepare_to_run(clock, count)
    case = dict(granularity=gran.name, transactions=[list(x) for x in seq])
    posted = set()
    closing = {}                       # closing postings by the year they appeared in
    orig = []
    years = 0
    for ix in range(count):
        now = clock.get_datetime()
        for i, (dt, cr, amt, dn) in enumerate(seq):
            if i not in posted and DATES[dn] <= now:
                posted.add(i)
                orig.append(L.post(e.gl, dt, cr, amt, DATES[dn], source="/E/A"))
        before = list(e.gl.transactions)
        e.run(clock)
        new = e.gl.transactions[len(before):]
        chk.expect(all(a is b for a, b in zip(before, e.gl.transactions)), "history-rewritten", "closing changed earlier entries of the ledger", case)
        if new:
            closing[ix] = (now, new)
        clock.tick()
    chk.step(len(seq) + 2)
    chk.expect([(t.dt_account, t.cr_account, t.amount) for t in orig] ==
               [(seq[i][0], seq[i][1], seq[i][2]) for i in sorted(range(len(seq)), key=lambda i: orig_order(seq, start, gran, count).index(i))],
               "originals-changed", "closing modified the original transactions", case)
    for y, (lo, hi) in enumerate(((start, start + relativedelta(years=1)), (start + relativedelta(years=1), start + relativedelta(years=2)))):
        want = net(seq, lo, hi)
        # far below the smallest posting of a history, far above the rounding of sums of the largest
        tol = 1e-9 * max([abs(x[2]) for x in seq if lo <= DATES[x[3]] < hi] or [1e-3])
        mine = [t for ix, (now, ts) in closing.items() for t in ts if hi <= now < hi + relativedelta(years=1)]
        for t in mine:
            chk.expect(lo <= t.tx_date < hi, "closing-date", lambda: "closing entry dated %s, year %s..%s" % (t.tx_date, lo, hi), case)
            chk.expect(t.is_closing_cr_account or t.is_closing_dt_account, "closing-flag", "a closing entry is not marked as closing", case)
            chk.expect(t.source == e.path, "closing-source", lambda: "closing entry source %r" % t.source, case)
            chk.expect(e.gl.structure.get_account(t.dt_account) is not None and e.gl.structure.get_account(t.cr_account) is not None,
                       "closing-account", lambda: "closing entry uses accounts %r" % ((t.dt_account, t.cr_account),), case)
        b = bal(mine)
        re = -b.get(RE, 0)
        yb = bal(e.gl.transactions, lambda t: lo <= t.tx_date < hi)
        resid = {a: v for a, v in yb.items() if L.KIND.get(a) in ("revenue", "expense") and abs(v) > tol}
        other = {a: v for a, v in b.items() if L.KIND.get(a) in ("asset", "liability") and abs(v) > tol}
        chk.expect(not other, "closing-touches-balance-sheet", lambda: "closing entries change %r" % other, case)
        want = 0 if abs(want) < tol else want
        kind = "gain" if want > 0 else "loss" if want < 0 else "zero"
        chk.outcome(kind)
        # Two misbehaviours are pinned by the existing tests and recorded as findings; each is matched
        # exactly, anything else in the same place is a violation.
        orig_b = bal(orig, lambda t: lo <= t.tx_date < hi)
        gpacc = {a: v for a, v in orig_b.items() if a.split("/")[0] in ("Sales", "Cost of Sales") and "/" in a and abs(v) > tol}
        gp = -sum(gpacc.values())
        part = {a: v for a, v in resid.items() if a == GP or a.split("/")[0] in ("Sales", "Cost of Sales") and "/" in a}
        quirk = {a: 2 * v for a, v in gpacc.items()}
        if abs(gp) > tol:
            quirk[GP] = 2 * gp
        if part and set(part) == set(quirk) and all(abs(part[a] - quirk[a]) < tol for a in part):
            chk.fail("gross-profit-closing-posted-in-reverse",
                     "year %d: accounts below Sales and Cost of Sales double instead of closing: %r" % (y + 1, part), case)
        else:
            chk.expect(not part, "residual-gross-profit/" + kind, lambda: "year %d: not closed: %r" % (y + 1, part), case)
        rest = {a: v for a, v in resid.items() if a not in part}
        loss = False
        if want < 0 and abs(re + want) < tol and set(rest) == {IS} and abs(rest[IS] + 2 * want) < tol:
            loss = True
            chk.fail("loss-settled-with-negative-amount",
                     "year %d: net loss %.2f raised retained earnings by %.2f and left %r" % (y + 1, want, re, rest), case)
        else:
            chk.expect(abs(re - want) < tol, "retained-earnings/" + kind, lambda: "year %d: retained earnings moved by %.4f, net profit %.4f" % (y + 1, re, want), case)
            chk.expect(not rest, "residual/" + kind, lambda: "year %d: not closed: %r" % (y + 1, rest), case)
        # the reports agree
        if y == 0 and len(seq) <= 1:
            got = L.read_balance(L.rows(chk, e.gl.balance_sheet, end=hi - timedelta(microseconds=1)))
            chk.expect(abs(got["totals"]["asset"] - got["totals"]["both"]) < 0.02 + tol or loss, "balance-sheet",
                       lambda: "totals %r" % got["totals"], case)
    stray = [t for ix, (now, ts) in closing.items() for t in ts
             if not (start + relativedelta(years=1) <= now < start + relativedelta(years=3))]
    chk.expect(not stray, "closing-outside-year-end", "closing entries before the first year end", case)
    chk.trace(case)
    chk.state(tuple(sorted((a, float("%.7g" % v)) for a, v in bal(e.gl.transactions).items() if abs(v) > 1e-6)))


_ORDER = {}


def orig_order(seq, start, gran, count):
    """Order in which the driver posted the transactions (by the period they became due)."""
    key = (tuple(x[3] for x in seq), start, gran)
    if key not in _ORDER:
        c = Clock("C", start_datetime=start, timestep_period_duration=gran)
        order, done = [], set()
        for ix in range(count):
            now = c.get_datetime_at_period_ix(ix)
            for i, x in enumerate(seq):
                if i not in done and DATES[x[3]] <= now:
                    done.add(i); order.append(i)
        _ORDER[key] = order
    return _ORDER[key]


def multiyear(chk, start, gran, count, sign):
    """Postings in every period of a run over several years, leap years among them. The accounts used have
    no accounts below Sales or Cost of Sales and every year makes a profit, so no recorded finding interferes."""
    case = dict(start=str(start), granularity=gran.name, periods=count, rebate=sign < 0)
    e = Entity("E", S)
    clock = Clock("C", start_datetime=start, timestep_period_duration=gran)
    e.prepare_to_run(clock, count)
    tx = []
    for ix in range(count):
        now = clock.get_datetime()
        tx.append((now, 100.0 + ix, 7.0 * sign))
        L.post(e.gl, "Bank/Default", "Other Income/Rent", 100.0 + ix, now, source="/E/A")
        if sign > 0:
            L.post(e.gl, "Expense/Wages", "Bank/Default", 7.0, now, source="/E/A")
        else:
            L.post(e.gl, "Bank/Default", "Expense/Wages", 7.0, now, source="/E/A")
        e.run(clock)
        clock.tick()
        chk.step(3)
    last = clock.get_datetime_at_period_ix(count - 1)
    y = 0
    while start + relativedelta(years=y + 1) <= last:
        lo, hi = start + relativedelta(years=y), start + relativedelta(years=y + 1)
        want = sum(a - b for d, a, b in tx if lo <= d < hi)
        mine = [t for t in e.gl.transactions if (t.is_closing_cr_account or t.is_closing_dt_account) and lo <= t.tx_date < hi]
        re = -bal(mine).get(RE, 0)
        chk.expect(abs(re - want) < 1e-6, "years/retained-earnings", lambda: "year %d (%s to %s): retained earnings moved by %.2f, net profit %.2f" % (y + 1, lo, hi, re, want), case)
        resid = {a: v for a, v in bal(e.gl.transactions, lambda t: lo <= t.tx_date < hi).items() if L.KIND.get(a) in ("revenue", "expense") and abs(v) > 1e-6}
        chk.expect(not resid, "years/residual", lambda: "year %d (%s to %s): not closed: %r" % (y + 1, lo, hi, resid), case)
        chk.state(("years", str(lo), round(re, 2)))
        y += 1
    chk.trace(case)
    chk.outcome("years%d" % y)


def work_years(chk, item):
    with chk.guard("years", item):
        multiyear(chk, *item)


AMTS = [1e-4, 3e-4, 0.0049, 0.0051, 0.01, 0.49, 0.5, 0.99, 1.0, 12345678.9, 3e9]
NETS = [1e-4, 0.004, 0.005, 0.0051, 0.01, 0.3, 0.5]


def magnitude(chk, item):
    """Amounts of every magnitude, and profits and losses that are small beside what made them."""
    with chk.guard("amounts", item):
        history(chk, item)


def magnitudes():
    sides = [("Bank/Default", "Other Income/Rent"), ("Expense/Wages", "Bank/Default"), ("Bank/Default", "Sales"), ("Tax/Income Tax Expense", "Account Payable"),
             ("Bank/Default", "Sales/Delivery"), ("Cost of Sales/Fuel", "Bank/Default")]
    for a in AMTS:
        for dt, cr in sides:
            yield [(dt, cr, a, "mid")]
            yield [(dt, cr, a, "mid"), (dt, cr, a, "nextmid")]
    for big in (0.02, 1.5, 100.25, 20000.5):
        for d in NETS:
            for sg in (1, -1):
                for inc, exp in ((0, 1), (2, 1), (0, 3), (2, 3)):
                    yield [sides[inc] + (big + d * (sg > 0), "mid"), sides[exp] + (big + d * (sg < 0), "last")]
    for a, b in itertools.permutations(AMTS, 2):
        yield [sides[0] + (a, "mid"), sides[1] + (b, "nextmid")]


def hash_pair(h):
    odd = sorted(L.ODD)
    return odd.index(h[0][0]) + odd.index(h[1][1])


def work(chk, item):
    kind, first, accs, dns = item
    n = 1 if kind == "two" else 2
    for p in itertools.product(itertools.product(accs, accs, dns), repeat=n):
        seq = [first] + [(d, c, L.AMOUNTS[i + 1], dn) for i, (d, c, dn) in enumerate(p) if d != c]
        if len(seq) < n + 1:
            continue
        with chk.guard("history%d" % (n + 1), seq):
            history(chk, seq)


def run(chk):
    with chk.guard("empty", []):
        history(chk, [])
    allacc = sorted(L.TYPE)
    for dt, cr in itertools.product(allacc, allacc):
        if dt == cr:
            continue
        with chk.guard("history1", (dt, cr, "mid")):
            history(chk, [(dt, cr, 100.25, "mid")])
    for dt, cr in itertools.permutations(ACC, 2):
        for dn in DATES:
            if dn == "mid":
                continue
            with chk.guard("history1/" + dn, (dt, cr, dn)):
                history(chk, [(dt, cr, 100.25, dn)])
    for gran in (TimePeriod.week, TimePeriod.year):
        for dt, cr in itertools.permutations(SMALL, 2):
            for dn in ("mid", "last", "next"):
                with chk.guard("history1/" + gran.name, (dt, cr, dn)):
                    history(chk, [(dt, cr, 100.25, dn)], gran)
    odd = list(L.odd_histories(lambda i: ("mid",)))
    if chk.quick:
        odd = [h for h in odd if not (len(h) == 1 and h[0][0] in L.ODD and h[0][1] in L.ODD) and not (len(h) == 2 and h[0][0] in L.ODD and hash_pair(h) % 3)]
    chk.parallel(magnitude, odd)
    chk.bounds["names"] = "%d histories over %d accounts whose names are alike, repeat or are deep" % (len(odd), len(L.ODD))
    mags = list(magnitudes())
    chk.parallel(magnitude, mags)
    chk.bounds["amounts"] = "%d histories over amounts %r and results %r" % (len(mags), AMTS, NETS)
    starts = [datetime(2015, 1, 1), datetime(2015, 3, 1), datetime(2014, 2, 28), datetime(2015, 12, 31), datetime(2016, 1, 1), datetime(2015, 7, 1, 12)]
    runs = [(TimePeriod.day, 365 * 3 + 5), (TimePeriod.week, 53 * 4), (TimePeriod.month, 62), (TimePeriod.year, 7)]
    if not chk.quick:
        runs += [(TimePeriod.day, 365 * 5 + 5), (TimePeriod.hour, 8760 + 30), (TimePeriod.month, 130)]
    chk.parallel(work_years, [(st, g, n, sg) for st in starts for g, n in runs for sg in (1, -1)])
    chk.bounds["years"] = "runs of %s from %d starts" % (", ".join("%d %ss" % (n, g.name) for g, n in runs), len(starts))
    acc2 = SMALL + ["Sales", "Account Payable"] if chk.quick else ACC
    dn2 = ("mid", "next") if chk.quick else ("mid", "last", "next", "first")
    items = [("two", (d, c, L.AMOUNTS[0], n), acc2, dn2) for d, c in itertools.permutations(acc2, 2) for n in ("mid", "next")]
    acc3 = SMALL[1:] if chk.quick else SMALL
    items += [("three", (d, c, L.AMOUNTS[0], "mid"), acc3, ("mid",) if chk.quick else ("mid", "next")) for d, c in itertools.permutations(acc3, 2)]
    chk.bounds["histories"] = "length 1: %d accounts squared, 8 dates, 3 granularities; length 2: %d accounts, %s; length 3: %d accounts" % (len(allacc), len(acc2), dn2, len(acc3))
    chk.parallel(work, items)
