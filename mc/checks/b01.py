"""B01: activity schedule. Every (granularity, start, end, interval, periods) combination in the
alphabet, every period index, every pair of successive runs, against the arithmetic of the schedule."""
import itertools
from datetime import datetime, timedelta
from dateutil.relativedelta import relativedelta
from auxi.core.time import Clock, TimePeriod
from auxi.modelling.business.basic import BasicActivity
from auxi.modelling.business.structure import Component, Entity
from auxi.modelling.financial.des import GeneralLedger
from mc import ledger as L

S = L.structure()
T0 = datetime(2016, 1, 31)
STEP = {TimePeriod.millisecond: lambda t, i: t + timedelta(milliseconds=i),
        TimePeriod.second: lambda t, i: t + timedelta(seconds=i),
        TimePeriod.minute: lambda t, i: t + timedelta(minutes=i),
        TimePeriod.hour: lambda t, i: t + timedelta(hours=i),
        TimePeriod.day: lambda t, i: t + timedelta(days=i),
        TimePeriod.week: lambda t, i: t + timedelta(days=7 * i),
        TimePeriod.month: lambda t, i: t + relativedelta(months=i),
        TimePeriod.year: lambda t, i: t + relativedelta(years=i)}


def expected(times, n, start, end, interval):
    """Executed period indices."""
    if n == 0:
        return []
    s = 0
    if start is not None:
        after = [i for i in range(n) if times[i] > start]
        s = after[0] if after else (n - 1 if times[n - 1] == start else None)
    if s is None:
        return []
    e = s + n
    if end is not None:
        after = [i for i in range(n) if times[i] > end]
        if after:
            e = after[0]
    return [i for i in range(n) if (i + 1) % interval == 0 and i >= s and i + interval <= e]


def observe(chk, act, clock, n, case, gl=None, times=None):
    gl = gl or GeneralLedger("GL", S)
    clock.reset()
    act.prepare_to_run(clock, n)
    out = []
    for i in range(n):
        k = len(gl.transactions)
        act.run(clock, gl)
        new = gl.transactions[k:]
        if new:
            chk.expect(len(new) == 1, "posts-once", lambda: "%d postings in period %d" % (len(new), i), case)
            t = new[0]
            ok = (t.dt_account == act.dt_account and t.cr_account == act.cr_account and t.amount == act.amount
                  and t.tx_date == times[i] and t.source == act.path
                  and t.name == (act.description if act.description is not None else act.name)
                  and not t.is_closing_cr_account and not t.is_closing_dt_account)
            chk.expect(ok, "posting-content", lambda: "posting %r" % vars(t), case)
            out.append(i)
        clock.tick()
        chk.step()
    return out


def points(times, n, gran):
    d = (times[1] - times[0]) / 2
    pts = [None]
    for i in (0, 1, 2, n - 1):
        if 0 <= i < n:
            pts += [times[i], times[i] + d]
    pts += [times[0] - d, times[n - 1] + 4 * (times[n - 1] - times[n - 2] + d)]
    out = []
    for p in pts:
        if p not in out:
            out.append(p)
    return out


def work(chk, item):
    gran, n, interval = item
    times = [STEP[gran](T0, i) for i in range(n + 2)]
    pts = points(times, n, gran)
    for start, end in itertools.product(pts, pts):
        case = dict(granularity=gran.name, periods=n, start=str(start), end=str(end), interval=interval)
        with chk.guard("schedule", case):
            kw = {}
            if start is not None:
                kw["start"] = start
            if end is not None:
                kw["end"] = end
            a = BasicActivity("act", "Bank/Default", "Sales", amount=12.5, interval=interval, **kw)
            c = Clock("C", start_datetime=T0, timestep_period_duration=gran)
            want = expected(times, n, start, end, interval)
            got = observe(chk, a, c, n, case, times=times)
            chk.expect(got == want, "schedule/" + ("start" if start else "nostart") + ("-end" if end else "-noend"),
                       lambda: "executed in periods %r, schedule dictates %r" % (got, want), case)
            chk.trace(case)
            chk.state((gran.name, n, interval, tuple(got)))
            chk.outcome("%d executions" % len(got))
            # again: the same activity on the same clock, then on a clock of another granularity and length
            got2 = observe(chk, a, c, n, case, times=times)
            chk.expect(got2 == want, "rerun/same", lambda: "second run executed in %r, expected %r" % (got2, want), case)
            for g2, n2 in ((gran, n + 2), (TimePeriod.month, 4)):
                t2 = [STEP[g2](T0, i) for i in range(n2)]
                c2 = Clock("D", start_datetime=T0, timestep_period_duration=g2)
                want3 = expected(t2, n2, start, end, interval)
                got3 = observe(chk, a, c2, n2, case, times=t2)
                chk.expect(got3 == want3, "rerun/other-clock", lambda: "rerun on %s x%d executed in %r, expected %r" % (g2.name, n2, got3, want3), case)
            chk.trace(); chk.trace(); chk.trace()


STARTS = (None, datetime(2015, 12, 1), datetime(2016, 1, 31), datetime(2016, 3, 5), datetime(2016, 8, 31), datetime(2018, 1, 1))
ENDS = (None, datetime(2016, 1, 1), datetime(2016, 4, 30), datetime(2016, 6, 15), datetime(2018, 1, 1))
CLOCKS = ((TimePeriod.month, 9), (TimePeriod.day, 40), (TimePeriod.year, 3))


def reused(chk, item):
    """One activity, given another schedule (limits also taken away again) before each of several runs."""
    first, second, deep = item
    plans = [(s, e, k, c) for s in STARTS for e in ENDS for k in (1, 2) for c in (0, 1, 2)]
    few = [(s, e, 1, c) for s in (None, STARTS[3], STARTS[5]) for e in (None, ENDS[1], ENDS[2]) for c in (0, 1)]
    grid = {c: [STEP[CLOCKS[c][0]](T0, i) for i in range(CLOCKS[c][1] + 2)] for c in range(3)}
    for last in (plans if second is None else few if deep else ()):
        hist = [p for p in (first, second, last) if p is not None]
        case = [[str(s), str(e), k, CLOCKS[c][0].name] for s, e, k, c in hist]
        with chk.guard("reused", case):
            a = BasicActivity("act", "Bank/Default", "Sales", amount=2.0)
            for s, e, k, c in hist:
                a.start_datetime = s or datetime.min
                a.end_datetime = e or datetime.max
                a.interval = k
                clock = Clock("C", start_datetime=T0, timestep_period_duration=CLOCKS[c][0])
                n = CLOCKS[c][1]
                got = observe(chk, a, clock, n, case, times=grid[c])
                want = expected(grid[c], n, s, e, k)
                chk.expect(got == want, "reused", lambda: "executed in periods %r, schedule dictates %r" % (got, want), case)
            chk.trace(case)
            chk.state(tuple(hist))
            chk.outcome("reused %d" % len(hist))


def misc(chk):
    c = Clock("C", start_datetime=datetime(2016, 1, 1))
    times = [STEP[TimePeriod.month](datetime(2016, 1, 1), i) for i in range(8)]
    # textual dates denote the same instants
    for s, e in itertools.product((None, "2016-01-01", "2016-03-01", "2016-03-15"), (None, "2016-02-10", "2016-05-01", "2030-01-01")):
        kw = {}
        if s: kw["start"] = s
        if e: kw["end"] = e
        case = dict(text=kw)
        with chk.guard("text-dates", case):
            a = BasicActivity("act", "Bank/Default", "Sales", amount=1.0, **kw)
            p = lambda x: datetime.strptime(x, "%Y-%m-%d") if x else None
            want = expected(times, 8, p(s), p(e), 1)
            got = observe(chk, a, c, 8, case, times=times)
            chk.expect(got == want, "text-dates", lambda: "executed in %r, expected %r" % (got, want), case)
            chk.trace(case)
    # amounts: only positive amounts are posted; description replaces the name
    for amt in (0, -1, -0.01, 0.01, 5000, 0.002, 0.0049, 1e-3, 1e-9, 1e-12, 1e-300, -1e-9, 1 / 3.0, 0.1 + 0.2, 12.345, 999.995, 1e12, 1e15 + 0.5, 1e300, 1, 7, 2 ** 53 + 1):
        for desc in (None, "Desc", ""):
            case = dict(amount=amt, description=desc)
            with chk.guard("amount", case):
                a = BasicActivity("act", "Expense/Wages", "Bank/Default", amount=amt, description=desc)
                got = observe(chk, a, c, 4, case, times=times)
                chk.expect(got == ([0, 1, 2, 3] if amt > 0 else []), "amount", lambda: "executed in %r" % got, case)
                chk.trace(case)
    # defaults: zero amount never posts
    with chk.guard("default", []):
        a = BasicActivity("act", "Expense/Wages", "Bank/Default")
        chk.eq(observe(chk, a, c, 4, "default", times=times), [], "default", "default")
    # changing amount/accounts/interval/start between runs behaves like a fresh activity
    for attr, val in (("amount", 7.0), ("interval", 2), ("start_datetime", datetime(2016, 3, 1)), ("end_datetime", datetime(2016, 4, 1)), ("dt_account", "Inventory")):
        case = dict(change=attr)
        with chk.guard("change", case):
            a = BasicActivity("act", "Bank/Default", "Sales", amount=2.0, start=datetime(2016, 1, 15), end=datetime(2016, 7, 1))
            observe(chk, a, c, 8, case, times=times)
            setattr(a, attr, val)
            want = expected(times, 8, a.start_datetime, a.end_datetime, a.interval)
            got = observe(chk, a, c, 8, case, times=times)
            chk.expect(got == want, "change/" + attr, lambda: "after changing %s executed in %r, expected %r" % (attr, got, want), case)
            chk.trace(case)
    # through a component tree: every activity of every nested component runs at its own schedule
    with chk.guard("component", []):
        gl = GeneralLedger("GL", S)
        top = Component("Top", gl); sub = top.create_component("Sub"); deep = sub.create_component("Deep")
        acts = []
        for i, comp in enumerate((top, sub, sub, deep)):
            a = BasicActivity("a%d" % i, "Bank/Default", "Sales", amount=10.0 ** i, interval=i + 1 if i < 3 else 1,
                              start=datetime(2016, 1, 15) if i % 2 else datetime.min)
            comp.add_activity(a); acts.append(a)
        top.prepare_to_run(c, 8)
        c.reset()
        for ix in range(8):
            k = len(gl.transactions)
            top.run(c, gl)
            got = sorted(t.source for t in gl.transactions[k:])
            want = sorted(a.path for i, a in enumerate(acts) if ix in expected(times, 8, datetime(2016, 1, 15) if i % 2 else None, None, a.interval))
            chk.step()
            chk.expect(got == want, "component", lambda: "period %d posted %r, expected %r" % (ix, got, want), ix)
            c.tick()
        chk.trace("component")


def run(chk):
    misc(chk)
    ns = (1, 2, 3, 4, 6, 9, 13) if chk.quick else tuple(range(1, 27))
    ivs = (1, 2, 3, 4, 5, 12) if chk.quick else tuple(range(1, 14))
    chk.bounds["schedules"] = "8 granularities x periods %r x intervals %r x up to 12 starts x up to 12 ends, each also rerun on three clocks" % (ns, ivs)
    items = [(g, n, k) for g in TimePeriod for n in ns for k in ivs]
    long_n, long_k = ((30, 61), (7, 12, 13, 14, 18, 24, 25, 29, 30, 31, 60, 61, 62)) if chk.quick else ((30, 61, 125), tuple(range(4, 63)))
    items += [(g, n, k) for g in (TimePeriod.day, TimePeriod.month, TimePeriod.hour) for n in long_n for k in long_k]
    chk.bounds["long_schedules"] = "3 granularities x periods %r x intervals %r" % (long_n, long_k)
    chk.parallel(work, items)
    plans = [(s, e, k, c) for s in STARTS for e in ENDS for k in (1, 2) for c in (0, 1, 2)]
    few = [(s, e, 1, c) for s in (None, STARTS[3], STARTS[5]) for e in (None, ENDS[1], ENDS[2]) for c in (0, 1)]
    pairs = [(p, None, False) for p in (few if chk.quick else plans)]
    chk.parallel(reused, pairs + [(p, q, True) for p in few for q in (few[::3] if chk.quick else few)])
    chk.bounds["reused"] = "every pair (and triple of a smaller set) of %d schedules given to one activity in turn" % len(plans)
