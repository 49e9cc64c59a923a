"""B02: loan amortisation: every (principal, rate, duration, start, interval, setter order) in the
alphabet, followed posting by posting, against the outstanding-balance recurrence."""
import itertools
from datetime import datetime
from dateutil.relativedelta import relativedelta
from auxi.core.time import Clock, TimePeriod
from auxi.modelling.business.basic import BasicLoanActivity
from auxi.modelling.financial.des import GeneralLedger
from mc import ledger as L

S = L.structure()
BANK, LOAN, INT = "Bank/Default", "Long Term Borrowing/Loan", "Expense/Wages"
T0 = datetime(2016, 1, 1)


def follow(chk, act, periods, case, P, r, dur, first, interval=1, gran=TimePeriod.month, desc=None):
    """Run the activity and check every posting. ``first`` is the period of the principal or None."""
    clock = Clock("C", start_datetime=T0, timestep_period_duration=gran)
    gl = GeneralLedger("GL", S)
    act.prepare_to_run(clock, periods)
    step = r / 12.0
    pay = None
    if dur:
        pay = P / dur if r == 0 else P * step / (1 - (1 + step) ** -dur)
    outstanding = 0.0
    started = None
    npay = 0
    for i in range(periods):
        k = len(gl.transactions)
        act.run(clock, gl)
        new = [(t.dt_account, t.cr_account, t.amount, t.tx_date, t.source, t.name) for t in gl.transactions[k:]]
        now = clock.get_datetime()
        chk.step()
        for t in new:
            chk.expect(t[3] == now and t[4] == act.path and t[5] == (desc if desc is not None else act.name),
                       "posting-meta", lambda: "posting %r at %s" % (t, now), case)
            chk.expect(isinstance(t[2], (int, float)) and t[2] >= 0, "posting-sign", lambda: "posting %r" % (t,), case)
        core = [t[:3] for t in new]
        if started is None:
            if core:
                started = i
                chk.expect(len(core) == 1 and core[0][:2] == (BANK, LOAN) and abs(core[0][2] - P) < 1e-9 * (P or 1),
                           "principal", lambda: "first postings %r" % core, case)
                outstanding = P
                chk.expect(i == first, "first-period", lambda: "principal received in period %d, expected %r" % (i, first), case)
        elif core:
            due = interval == 1 or (i + 1) % interval == 0
            interest = outstanding * step
            intp = [t for t in core if t[:2] == (INT, LOAN)]
            payp = [t for t in core if t[:2] == (LOAN, BANK)]
            chk.expect(len(core) == 2 and len(intp) == 1 and len(payp) == 1, "postings", lambda: "period %d postings %r" % (i, core), case)
            if len(intp) == 1 and len(payp) == 1:
                chk.expect(abs(intp[0][2] - interest) < 1e-9 * (P or 1), "interest", lambda: "period %d interest %r, outstanding %r gives %r" % (i, intp[0][2], outstanding, interest), case)
                chk.expect(abs(payp[0][2] - pay) < 1e-9 * (P or 1), "instalment", lambda: "period %d instalment %r, expected %r" % (i, payp[0][2], pay), case)
                outstanding += intp[0][2] - payp[0][2]
            npay += 1
            chk.expect(due, "interval", lambda: "posting in period %d" % i, case)
        else:
            chk.expect(not (interval == 1 and npay < dur), "missing-instalment", lambda: "period %d without posting after %d of %d instalments" % (i, npay, dur), case)
        # the ledger says the same
        led = sum(t.amount for t in gl.transactions if t.cr_account == LOAN) - sum(t.amount for t in gl.transactions if t.dt_account == LOAN)
        chk.expect(abs(led - outstanding) < 1e-8 * (P or 1), "ledger-outstanding", lambda: "ledger %r, recurrence %r" % (led, outstanding), case)
        clock.tick()
    if first is None:
        chk.expect(started is None, "must-not-start", lambda: "postings from period %r" % started, case)
    else:
        chk.expect(started == first, "start", lambda: "started in %r, expected %r" % (started, first), case)
    if interval == 1 and first is not None and periods > first + dur:
        chk.expect(npay == dur, "instalment-count", lambda: "%d instalments, expected %d" % (npay, dur), case)
        chk.expect(abs(outstanding) < 1e-8 * (P or 1), "settled", lambda: "outstanding %r after the loan's duration" % outstanding, case)
        chk.outcome("settled")
    else:
        chk.outcome("open")
    chk.trace(case)
    chk.state((P, r, dur, periods, first, interval, len(gl.transactions), round(outstanding, 4)))
    return gl


def make(P, r, dur, **kw):
    return BasicLoanActivity("Loan", bank_account=BANK, loan_account=LOAN, interest_account=INT, amount=P, interest_rate=r, duration=dur, **kw)


def first_period(start, periods):
    if start is None:
        return 0
    times = [T0 + relativedelta(months=i) for i in range(periods)]
    aft = [i for i, t in enumerate(times) if t > start]
    if aft:
        return aft[0]
    return periods - 1 if times[-1] == start else None


STARTS = [None, T0, datetime(2015, 12, 15), datetime(2016, 2, 15), datetime(2016, 3, 1), "2016-02-01", datetime(2030, 1, 1)]


def work(chk, item):
    P, r = item
    durs = (1, 2, 3, 4, 6, 12, 24) if chk.quick else (1, 2, 3, 4, 5, 6, 9, 12, 13, 24, 36, 60, 120, 240)
    for dur in durs:
        for start in STARTS:
            sd = datetime.strptime(start, "%Y-%m-%d") if isinstance(start, str) else start
            for periods in (1, dur, dur + 4):
                case = dict(principal=P, rate=r, duration=dur, start=str(start), periods=periods)
                f = first_period(sd, periods)
                with chk.guard("loan", case):
                    kw = {} if start is None else dict(start=start)
                    a = make(P, r, dur, **kw)
                    chk.expect(a.get_referenced_accounts() == [BANK, LOAN, INT], "accounts", "referenced accounts", case)
                    follow(chk, a, periods, case, P, r, dur, f)
                    follow(chk, a, periods, dict(case, rerun=True), P, r, dur, f)          # rerun
                    # set parameters afterwards, in every order, from a different loan
                    for order in itertools.permutations(("amount", "interest_rate", "duration")):
                        b = make(50.0, 0.3, 5, **kw)
                        vals = dict(amount=P, interest_rate=r, duration=dur)
                        for o in order:
                            setattr(b, o, vals[o])
                        follow(chk, b, periods, dict(case, setters=list(order)), P, r, dur, f)
                    # change some parameters after a run
                    for k in (1, 2):
                        for some in itertools.permutations(("amount", "interest_rate", "duration"), k):
                            for before in (0, 3):
                                now = dict(amount=50.0, interest_rate=0.3, duration=5)
                                vals = dict(amount=P, interest_rate=r, duration=dur)
                                b = make(50.0, 0.3, 5, **kw)
                                if before:
                                    follow(chk, b, before, dict(case, phase="before partial change"), 50.0, 0.3, 5, first_period(sd, before))
                                for o in some:
                                    setattr(b, o, vals[o])
                                    now[o] = vals[o]
                                follow(chk, b, periods, dict(case, phase="after partial change", changed=list(some), periods_before=before), now["amount"], now["interest_rate"], now["duration"], f)
                    # change after a run
                    b = make(50.0, 0.3, 5, **kw)
                    follow(chk, b, 3, dict(case, phase="before change"), 50.0, 0.3, 5, first_period(sd, 3))
                    b.amount = P; b.interest_rate = r; b.duration = dur
                    follow(chk, b, periods, dict(case, phase="after change"), P, r, dur, f)


def long_loan(chk, item):
    P, r, dur = item
    case = dict(principal=P, rate=r, duration=dur, long=True)
    with chk.guard("long", case):
        gl = follow(chk, make(P, r, dur, start=T0), dur + 5, case, P, r, dur, 1)
        # settled to a hundredth of a thousandth of a cent per unit lent
        led = sum(t.amount for t in gl.transactions if t.cr_account == LOAN) - sum(t.amount for t in gl.transactions if t.dt_account == LOAN)
        chk.expect(abs(led) < 1e-9 * P * max(1, (1 + r / 12) ** dur / 100), "long/settled", lambda: "%r outstanding after the last instalment" % led, case)
        pay = [t.amount for t in gl.transactions if t.dt_account == LOAN and t.cr_account == BANK]
        chk.expect(max(pay) - min(pay) <= 1e-12 * P, "long/level", lambda: "instalments between %r and %r" % (min(pay), max(pay)), case)


def run(chk):
    Ps = (0.01, 120.0, 180000) if chk.quick else (0.01, 1, 120.0, 180000, 2.5e9)
    rs = (0.0, 0.12, 0.15, 1.2) if chk.quick else (0.0, 1e-4, 0.01, 0.12, 0.15, 0.6, 1.2)
    chk.parallel(work, list(itertools.product(Ps, rs)))
    # long loans at awkward rates: rounding anywhere inside shows in the last instalments
    chk.parallel(long_loan, [(P, r, dur) for P in (5e6, 123456.78) for r in (0.085, 0.1025, 0.0777, 0.1) for dur in ((60, 240) if chk.quick else (60, 240, 360))])
    sizes, rates, terms = (0.01, 1, 1e9), (0.0, 1e-4, 1e-3, 0.005, 0.0199, 0.24, 0.5, 1.0, 3.0), (1, 2, 3, 5, 7, 11, 12, 13, 24, 25, 48, 119)
    if not chk.quick:
        sizes, rates, terms = (0.01, 0.37, 1, 999.99, 1e5, 1e9, 1e12), rates + (1e-5, 2e-4, 0.01, 0.05, 0.0725, 0.1999, 0.75, 2.0), range(1, 181)
    # beyond this a rounding error of the last digit grows into cents while the loan lasts
    chk.parallel(long_loan, [(P, r, dur) for P in sizes for r in rates for dur in terms if (1 + r / 12) ** dur < 1e3])
    chk.bounds["long_loans"] = "principals %r x rates %r x durations %r" % (sizes, rates, tuple(terms))
    # nothing is posted for empty loans
    for P, dur in ((0, 12), (0, 1), (100.0, 0), (0, 0)):
        case = dict(principal=P, duration=dur)
        with chk.guard("empty-loan", case):
            gl = follow(chk, make(P, 0.15, dur, start=T0), 6, case, P, 0.15, dur, None)
            chk.eq(len(gl.transactions), 0, "empty-loan", case)
    # description, defaults
    with chk.guard("description", []):
        follow(chk, make(100.0, 0.12, 3, start=T0, description="Car"), 6, "description", 100.0, 0.12, 3, 1, desc="Car")
    # other intervals: the balance recurrence still holds for every posting
    for iv in (2, 3):
        for r in (0.0, 0.12):
            case = dict(interval=iv, rate=r)
            with chk.guard("interval", case):
                a = make(1000.0, r, 12, start=T0, interval=iv)
                f = [i for i in range(20) if (i + 1) % iv == 0 and i >= 1][0]
                follow(chk, a, 20, case, 1000.0, r, 12, f, interval=iv)
    chk.bounds["loans"] = "principals %r, rates %r, 7 starts, 3 run lengths, 6 setter orders, reruns" % (Ps, rs)
