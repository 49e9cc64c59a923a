"""B05: a model run is a complete, repeatable replay of its schedule.

Every initial model of the alphabet, every history of runs and edits up to the depth: after each run the
visits of every activity, the ordinary postings of every entity and its year-end closings are compared
with the schedule arithmetic of the specification, and the whole ledger with that of a freshly built model."""
import itertools
from collections import Counter
from datetime import datetime, timedelta
from dateutil.relativedelta import relativedelta
from auxi.core.time import TimePeriod
from auxi.modelling.business.models import TimeBasedModel
from auxi.modelling.business.structure import Activity
from auxi.modelling.business.basic import BasicActivity, BasicLoanActivity
from mc import ledger as L
from mc.explore import bfs, structure
from mc.checks.b01 import STEP, expected

S = L.structure()
T0 = datetime(2016, 2, 1)
RE = "Retained Income/Retained Earnings"
LOAN = ("Bank/Default", "Long Term Borrowing/Loan", "Expense/Wages")


class Fault(Exception):
    pass


class Rec(Activity):
    """Records when it is visited; posts nothing."""
    def __init__(self, name, log):
        super(Rec, self).__init__(name)
        self.log = log
        self.fault = None

    def prepare_to_run(self, clock, period_count):
        if self.fault == "prepare":
            raise Fault("prepare")
        super(Rec, self).prepare_to_run(clock, period_count)
        self.log.append("prepare %d" % period_count)

    def run(self, clock, generalLedger):
        if self.fault == clock.timestep_ix:
            raise Fault("period %d" % self.fault)
        self.log.append((clock.timestep_ix, clock.get_datetime(), generalLedger, self.path))


def basic(name, dt, cr, amount, start=None, end=None, interval=1):
    return dict(kind="basic", name=name, dt=dt, cr=cr, amount=amount, start=start, end=end, interval=interval)


SALE = basic("sale", "Bank/Default", "Other Income/Rent", 900.5)
WAGE = basic("wage", "Expense/Wages", "Bank/Default", 10.25, start=datetime(2016, 2, 15), interval=2)
RENT = basic("rent", "Bank/Default", "Sales", 77.0, end=datetime(2016, 9, 1), interval=3)
LATE = basic("late", "Inventory", "Account Payable", 5.5, start=datetime(2017, 1, 1))
LOA = dict(kind="loan", name="loan", amount=1000.0, rate=0.12, dur=4, start=T0)
LOB = dict(kind="loan", name="loanb", amount=500.0, rate=0.0, dur=30, start=None)


def comp(name, acts, comps=(), rec=True):
    return dict(name=name, acts=list(acts), comps=list(comps), rec=rec)


def ent(name, comps):
    return dict(name=name, comps=list(comps))


SHAPES = dict(
    none=[], bare=[ent("E", [])],
    flat=[ent("E", [comp("C", [SALE, WAGE])])],
    nested=[ent("E", [comp("C", [SALE], [comp("D", [WAGE], [comp("X", [RENT])])]), comp("F", [LATE])])],
    deep=[ent("E", [comp("C", [], [comp("D", [], [comp("X", [WAGE], [comp("Y", [RENT])]), comp("Z", [LATE], rec=False)], rec=False)], rec=False),
                    comp("V", [SALE], [comp("W", [], rec=False)], rec=False)]), ent("E2", [])],
    two=[ent("E", [comp("C", [SALE, RENT])]), ent("E2", [comp("C", [WAGE, SALE]), comp("D", [LATE])])],
    twins=[ent("E", [comp("C", [SALE, SALE, dict(SALE, amount=1.5), RENT, WAGE, RENT], [comp("C", [SALE, WAGE, SALE])])]), ent("E2", [comp("C", [SALE, SALE])])],
    loan=[ent("E", [comp("C", [LOA, SALE], [comp("D", [LOB])])])])


def mk(a):
    if a["kind"] == "basic":
        kw = {}
        if a["start"] is not None: kw["start"] = a["start"]
        if a["end"] is not None: kw["end"] = a["end"]
        return BasicActivity(a["name"], a["dt"], a["cr"], amount=a["amount"], interval=a["interval"], **kw)
    kw = {} if a["start"] is None else dict(start=a["start"])
    return BasicLoanActivity(a["name"], *LOAN, amount=a["amount"], interest_rate=a["rate"], duration=a["dur"], **kw)


def build(spec):
    m = TimeBasedModel(spec["name"], start_datetime=spec["start"], period_duration=TimePeriod[spec["gran"]], period_count=spec["n"])
    logs = []
    def fill(parent, comps):
        for c in comps:
            o = parent.create_component(c["name"])
            log = []
            if c["rec"]:
                o.add_activity(Rec("rec", log)); logs.append(log)
            for a in c["acts"]:
                o.add_activity(mk(a))
            fill(o, c["comps"])
    for e in spec["ents"]:
        fill(m.create_entity(e["name"], S), e["comps"])
    return m


def loan_postings(a, times, n, path):
    out = []
    f = expected(times, n, a["start"], None, 1)
    if not f:
        return out
    f = f[0]
    step = a["rate"] / 12.0
    pay = a["amount"] / a["dur"] if step == 0 else a["amount"] * step / (1 - (1 + step) ** -a["dur"])
    out.append((f, LOAN[0], LOAN[1], a["amount"], path, a["name"]))
    bal = a["amount"]
    for k in range(1, a["dur"] + 1):
        if f + k < n:
            out.append((f + k, LOAN[2], LOAN[1], bal * step, path, a["name"]))
            out.append((f + k, LOAN[1], LOAN[0], pay, path, a["name"]))
            bal += bal * step - pay
    return out


def reference(spec):
    """Per entity: multiset of ordinary postings; number of closed years and their profit; paths of components."""
    n, gran = spec["n"], TimePeriod[spec["gran"]]
    times = [STEP[gran](spec["start"], i) for i in range(n)]
    out = []
    for e in spec["ents"]:
        posts, paths = [], []
        def walk(cs, base):
            for c in cs:
                p = base + "/" + c["name"]
                if c["rec"]:
                    paths.append(p + "/rec")
                for a in c["acts"]:
                    if a["kind"] == "basic":
                        if a["amount"] > 0:
                            for i in expected(times, n, a["start"], a["end"], a["interval"]):
                                posts.append((i, a["dt"], a["cr"], a["amount"], p + "/" + a["name"], a["name"]))
                    else:
                        posts.extend(loan_postings(a, times, n, p + "/" + a["name"]))
                walk(c["comps"], p)
        walk(e["comps"], spec["name"] + "/" + e["name"])
        years = []
        y = 1
        while n and spec["start"] + relativedelta(years=y) <= times[-1]:
            lo, hi = spec["start"] + relativedelta(years=y - 1), spec["start"] + relativedelta(years=y)
            net = 0.0
            for i, dt, cr, amt, _, _ in posts:
                if lo <= times[i] < hi:
                    net += amt * ((L.TYPE[cr] in ("revenue", "expense")) - (L.TYPE[dt] in ("revenue", "expense")))
            years.append((lo, hi, net))
            y += 1
        out.append(dict(posts=Counter((times[i], dt, cr, round(amt, 6), p, nm) for i, dt, cr, amt, p, nm in posts), years=years, paths=paths))
    return times, out


def ledger_set(gl):
    return Counter((t.tx_date, t.dt_account, t.cr_account, round(t.amount, 6), t.source, t.name, t.description,
                    t.is_closing_cr_account, t.is_closing_dt_account) for t in gl.transactions)


def recs(m):
    out = []
    def walk(o):
        for a in o.activities:
            if isinstance(a, Rec):
                out.append(a)
        for c in o.components:
            walk(c)
    for e in m.entities:
        mine = len(out)
        for c in e.components:
            walk(c)
        for a in out[mine:]:
            a.owner = e
    return out


def dup(x):
    """Deep copy without sharing."""
    if isinstance(x, dict):
        return {k: dup(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dup(v) for v in x]
    return x


class Runs:
    def __init__(self, shape, gran, n, start, ns):
        self.spec = dict(name="M", gran=gran, n=n, start=start, ents=SHAPES[shape])
        self.ns = ns

    def new(self):
        spec = dup(self.spec)
        return build(spec), dict(spec=spec, runs=0, ran=False, edits=0)

    def opname(self, op):
        return op[0]

    def ops(self, m):
        yield ("run",)
        s = m["spec"]
        if m["edits"] >= 2:
            return
        for n in self.ns:
            if n != s["n"]:
                yield ("periods", n)
        yield ("granularity", "month" if s["gran"] != "month" else "week")
        yield ("start", 1)
        yield ("rename",)
        yield ("addentity",)
        if s["ents"]:
            yield ("removeentity", s["ents"][0]["name"])
            yield ("addcomponent",)
            yield ("renameentity",)
            if s["ents"][0]["comps"]:
                yield ("removecomponent", s["ents"][0]["comps"][0]["name"])
                yield ("addactivity",)
                if s["ents"][0]["comps"][0]["acts"]:
                    yield ("amount",)
                    yield ("interval",)
                yield ("stray",)
        yield ("tick",)

    def canon(self, impl, m):
        return repr((m["spec"], min(m["runs"], 2), m["ran"], m.get("ticked"), m.get("stray"), structure(impl)))

    def apply(self, chk, impl, m, op, hist):
        s = m["spec"]
        if op[0] == "run":
            for r in recs(impl):
                del r.log[:]
            impl.run()
            m["runs"] += 1
            m["ran"] = True
            m["ticked"] = m["stray"] = False
            self.verify(chk, impl, m, hist)
            return
        m["ran"] = False
        m["edits"] += 1
        e0 = impl.entities[0] if impl.entities else None
        if op[0] == "periods":
            impl.period_count = s["n"] = op[1]
        elif op[0] == "granularity":
            s["gran"] = op[1]
            impl.clock.timestep_period_duration = TimePeriod[op[1]]
        elif op[0] == "start":
            s["start"] = s["start"] + relativedelta(days=17)
            impl.clock.start_datetime = s["start"]
        elif op[0] == "rename":
            impl.name = s["name"] = s["name"] + "x"
        elif op[0] == "addentity":
            nm = "N%d" % len(s["ents"])
            s["ents"].append(dup(ent(nm, [comp("C", [SALE])])))
            c = impl.create_entity(nm, S).create_component("C")
            c.add_activity(Rec("rec", []))
            c.add_activity(mk(SALE))
        elif op[0] == "removeentity":
            s["ents"] = [e for e in s["ents"] if e["name"] != op[1]]
            impl.remove_entity(op[1])
        elif op[0] == "addcomponent":
            nm = "K%d" % len(s["ents"][0]["comps"])
            s["ents"][0]["comps"].append(dup(comp(nm, [RENT])))
            c = e0.create_component(nm)
            c.add_activity(Rec("rec", []))
            c.add_activity(mk(RENT))
        elif op[0] == "renameentity":
            s["ents"][0]["name"] += "y"
            e0.name = s["ents"][0]["name"]
        elif op[0] == "removecomponent":
            s["ents"][0]["comps"] = [c for c in s["ents"][0]["comps"] if c["name"] != op[1]]
            e0.remove_component(op[1])
        elif op[0] == "addactivity":
            s["ents"][0]["comps"][0]["acts"].append(dict(LATE, name="extra%d" % m["edits"]))
            e0.components[0].add_activity(mk(dict(LATE, name="extra%d" % m["edits"])))
        elif op[0] == "amount":
            a = s["ents"][0]["comps"][0]["acts"][0]
            a["amount"] = a["amount"] * 2
            e0.components[0](a["name"]).amount = a["amount"]
        elif op[0] == "interval":
            a = s["ents"][0]["comps"][0]["acts"][-1]
            if a["kind"] == "basic":
                a["interval"] = 2
                e0.components[0].activities[-1].interval = 2
        elif op[0] == "stray":
            m["stray"] = True
            # a posting made by hand between runs is not part of the next run
            L.post(e0.gl, "Bank/Default", "Sales", 12.5, T0 + timedelta(days=40), source=e0.components[0].path)
            L.post(e0.gl, "Expense/Wages", "Bank/Default", 3.25, T0 - timedelta(days=40), source=e0.path, closing="d")
        elif op[0] == "tick":
            impl.clock.tick()
            m["ticked"] = True

    def check(self, chk, impl, m, hist):
        pass

    def verify(self, chk, impl, m, hist):
        spec = m["spec"]
        case = dict(model=self.spec, history=hist)
        times, ref = reference(spec)
        n = spec["n"]
        chk.expect(len(impl.entities) == len(ref), "entities", "number of entities", case)
        k = 0
        rr = recs(impl)
        chk.expect(len(rr) == sum(len(r["paths"]) for r in ref), "activities", "number of activities", case)
        for a in rr:
            visits = [x for x in a.log if not isinstance(x, str)]
            preps = [x for x in a.log if isinstance(x, str)]
            chk.expect(preps == ["prepare %d" % n] and (not a.log or a.log[0] == preps[0]), "prepared", lambda: "activity %s prepared %r" % (a.path, preps), case)
            chk.expect([x[0] for x in visits] == list(range(n)), "visits", lambda: "activity %s visited in periods %r of %d" % (a.path, [x[0] for x in visits], n), case)
            chk.expect([x[1] for x in visits] == times, "visit-times", lambda: "activity %s saw times %r, expected %r" % (a.path, [x[1] for x in visits][:5], times[:5]), case)
            chk.expect(all(x[2] is a.owner.gl for x in visits), "visit-ledger", "an activity was given another entity's ledger", case)
        fresh = build(spec)
        fresh.run()
        for e, r, fe in zip(impl.entities, ref, fresh.entities):
            ordinary = Counter((t.tx_date, t.dt_account, t.cr_account, round(t.amount, 6), t.source, t.name)
                               for t in e.gl.transactions if t.source != e.path)
            chk.expect(ordinary == r["posts"], "postings",
                       lambda: "entity %s: unexpected %r, missing %r" % (e.name, list((ordinary - r["posts"]).items())[:4], list((r["posts"] - ordinary).items())[:4]), case)
            closing = [t for t in e.gl.transactions if t.source == e.path]
            chk.expect(all(t.is_closing_cr_account or t.is_closing_dt_account for t in closing), "closing-flag", "closing entry without flag", case)
            chk.expect(all(any(lo <= t.tx_date < hi for lo, hi, _ in r["years"]) for t in closing), "closing-year",
                       lambda: "closing entries %r outside the ended years %r" % ([str(t.tx_date) for t in closing], r["years"]), case)
            for lo, hi, net in r["years"]:
                moved = sum(t.amount * ((t.cr_account == RE) - (t.dt_account == RE)) for t in closing if lo <= t.tx_date < hi)
                chk.outcome("year closed with " + ("profit" if net > 0 else "loss" if net < 0 else "nothing"))
                if net >= 0:           # losses: see B04
                    chk.expect(abs(moved - net) < 1e-5, "closing-profit", lambda: "year from %s: retained earnings moved by %r, net profit %r" % (lo, moved, net), case)
            chk.expect(ledger_set(e.gl) == ledger_set(fe.gl), "fresh", lambda: "ledger differs from a freshly built model's: %r" %
                       (list((ledger_set(e.gl) - ledger_set(fe.gl)).items())[:3] + list((ledger_set(fe.gl) - ledger_set(e.gl)).items())[:3]), case)
            chk.expect([(t.tx_date, t.source, t.name, t.amount) for t in e.gl.transactions] == [(t.tx_date, t.source, t.name, t.amount) for t in fe.gl.transactions],
                       "fresh-order", "order of the ledger differs from a freshly built model's", case)
        chk.outcome("run %d" % min(m["runs"], 3))


def work(chk, item):
    shape, gran, n, start = item
    q = chk.quick
    bfs(chk, Runs(shape, gran, n, start, ((13,) if q else (1, 13, 25)) if gran == "month" else (5,) if q else (2, 5)), (2 if n > 20 else 3) if q else 4,
        "%s-%s-%d" % (shape, gran, n), procs=1, max_states=1500 if q else 20000)


def lengths(chk, item):
    """The number of periods changed before each run: every ordered sequence of lengths."""
    shape, gran, seq = item
    r = Runs(shape, gran, seq[0], T0, ())
    case = dict(shape=shape, granularity=gran, lengths=list(seq))
    with chk.guard("lengths", case):
        impl, m = r.new()
        for k, n in enumerate(seq):
            if k:
                r.apply(chk, impl, m, ("periods", n), [case])
            r.apply(chk, impl, m, ("run",), [case] + ["run with %d periods" % x for x in seq[:k + 1]])
            chk.step(n)
        chk.trace(case)
        chk.state(("lengths",) + tuple(item))


def faults(chk, item):
    """A run is broken off in one of its activities, at every period and while preparing; the next run is complete."""
    shape, gran, n, start = item
    r = Runs(shape, gran, n, start, ())
    count = len(recs(r.new()[0]))
    for j, point in itertools.product(range(count), ["prepare"] + list(range(n))):
        for before in (0, 1):
            hist = ["run"] * before + ["run broken off in recorder %d at %s" % (j, point), "run"]
            with chk.guard("faults", hist):
                impl, m = r.new()
                if before:
                    impl.run()
                a = recs(impl)[j]
                a.fault = point
                try:
                    impl.run()
                    chk.fail("faults/hidden", "the exception of an activity did not reach the caller", hist)
                except Fault:
                    pass
                a.fault = None
                r.apply(chk, impl, m, ("run",), hist)
                chk.step(3 * n)
                chk.trace(hist)
                chk.state(("faults", shape, gran, n, j, point))
                chk.outcome("run after a broken one")


def wide_shape(ne, nc, na, deep):
    """Many entities, components side by side and below one another, activities of every size."""
    k = 0
    ents = []
    for i in range(ne):
        comps = []
        for j in range(nc):
            acts = []
            for a in range(na):
                k += 1
                side = [("Bank/Default", "Other Income/Rent"), ("Bank/Default", "Sales"), ("Inventory", "Account Payable")][k % 3]
                acts.append(basic("a%d" % a, side[0], side[1], 10.0 ** (k % 11 - 3) * (1 + k % 7), interval=1 + k % 5,
                                  start=None if k % 4 else T0 + timedelta(days=10 * (k % 9)), end=None if k % 6 else T0 + timedelta(days=400)))
            c = comp("c%d" % j, acts)
            for d in range(deep):
                c = comp("d%d" % d, [basic("x", "Bank/Default", "Sales", 1.5 + d, interval=1 + d % 3)], [c])
            c["name"] = "c%d" % j
            comps.append(c)
        ents.append(ent("e%d" % i, comps))
    return ents


def wide(chk, item):
    ne, nc, na, deep, gran, n = item
    r = Runs("none", gran, n, T0, ())
    r.spec["ents"] = wide_shape(ne, nc, na, deep)
    case = dict(entities=ne, components=nc, activities=na, depth=deep, granularity=gran, periods=n)
    with chk.guard("wide", case):
        impl, m = r.new()
        for k in range(2):
            r.apply(chk, impl, m, ("run",), [case] + ["run"] * (k + 1))
            chk.step(n)
        chk.trace(case)
        chk.state(("wide",) + tuple(item))


def defaults(chk):
    """A model without time parameters runs exactly once; textual starts denote that day."""
    with chk.guard("defaults", []):
        m = TimeBasedModel("M")
        log = []
        m.create_entity("E", S).create_component("C").add_activity(Rec("r", log))
        m.run(); chk.step(); chk.trace("defaults")
        chk.expect([x[0] for x in log if not isinstance(x, str)] == [0], "defaults", lambda: "visits %r" % log, "defaults")
    with chk.guard("text-start", []):
        m = TimeBasedModel("M", start_datetime="2016-02-29", period_duration=TimePeriod.year, period_count=3)
        log = []
        m.create_entity("E", S).create_component("C").add_activity(Rec("r", log))
        m.run(); chk.step(); chk.trace("text-start")
        chk.expect([x[1] for x in log if not isinstance(x, str)] == [datetime(2016, 2, 29), datetime(2017, 2, 28), datetime(2018, 2, 28)],
                   "text-start", lambda: "visits %r" % log, "text-start")


def run(chk):
    defaults(chk)
    items = []
    q = chk.quick
    for shape in SHAPES:
        for n in ((0, 1, 13, 26) if q else (0, 1, 2, 6, 12, 13, 14, 24, 25, 26, 37)):
            for st in (T0,) if q else (T0, datetime(2016, 1, 31)):
                items.append((shape, "month", n, st))
        if shape != "loan":
            for gran, ns in (("year", (3,)), ("week", (54,))) if q else (("year", (1, 2, 3, 4)), ("week", (3, 53, 54, 106)), ("day", (1, 5, 367)), ("hour", (4,)), ("second", (4,)), ("minute", (3,)), ("millisecond", (3,))):
                for n in ns:
                    items.append((shape, gran, n, T0))
    wides = [(ne, 1, 1, 0, "month", 14) for ne in (3, 9, 11, 15)] + [(1, nc, 1, 0, "month", 14) for nc in (3, 9, 11, 15)] + [(1, 1, na, 0, "month", 26) for na in (3, 9, 11, 25)]
    wides += [(1, 1, 1, d, "month", 14) for d in (3, 5, 8, 12)] + [(2, 2, 3, 2, "month", n) for n in (99, 100, 101, 121, 240)] + [(1, 2, 2, 1, "day", n) for n in (100, 365, 366, 367, 800)]
    wides += [(1, 1, 3, 0, "week", n) for n in (52, 53, 105, 260)] + [(1, 1, 3, 0, "year", n) for n in (10, 30)] + [(1, 1, 2, 0, "hour", 1000), (1, 1, 2, 0, "second", 1001), (1, 1, 2, 0, "minute", 1500), (1, 1, 2, 0, "millisecond", 1001)]
    chk.parallel(wide, wides)
    fl = [(s, g, n, T0) for s in SHAPES for g, n in (("month", 14),) + (() if s == "loan" else (("year", 3),)) + (() if q else (("month", 26), ("month", 1)))]
    chk.parallel(faults, fl)
    chk.bounds["faults"] = "%d models, a run broken off in every recording activity at every period, first or second run" % len(fl)
    LEN = dict(month=(0, 1, 2, 5, 12, 13, 14, 25, 26), year=(0, 1, 2, 3), week=(0, 1, 52, 53, 54), day=(1, 2, 366, 367))
    lens = [(s, g, seq) for g, ls in LEN.items() for s in SHAPES if g == "month" or s != "loan" for seq in itertools.product(ls, repeat=2 if q else 3)
            if all(a != b for a, b in zip(seq, seq[1:])) and (g in ("month", "year") or s in ("flat", "nested", "two"))]
    chk.bounds["lengths"] = "%d sequences of %d runs over every ordered choice of lengths %r" % (len(lens), 2 if q else 3, LEN)
    chk.parallel(lengths, lens)
    chk.bounds["wide"] = "%d models of up to 15 entities, components, 25 activities, 12 levels, 1500 periods, run twice" % len(wides)
    # loans follow the calendar only for monthly periods: no granularity edits there
    chk.bounds["models"] = "%d initial models, run/edit histories of length %d with at most two edits" % (len(items), 3 if q else 4)
    chk.parallel(work, items)


_ops = Runs.ops
def _no_loan_gran(self, m):
    loan = any(a["kind"] == "loan" for e in m["spec"]["ents"] for c in e["comps"] for cc in [c] + c["comps"] for a in cc["acts"])
    for op in _ops(self, m):
        if loan and op[0] in ("granularity", "start"):
            continue
        yield op
Runs.ops = _no_loan_gran
