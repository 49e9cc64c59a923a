"""C01: clock time. Every granularity and start of the alphabet, every period index up to the bound and every
tick/reset/query history, against calendar arithmetic written from the definition."""
import itertools
from datetime import datetime, date, timedelta, timezone
from auxi.core.time import Clock, TimePeriod
from auxi.core.helpers import get_date
from auxi.modelling.business.models import TimeBasedModel
from auxi.modelling.business.structure import Activity
from mc.explore import bfs

MDAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def add_months(t, k):
    n = t.year * 12 + (t.month - 1) + k
    y, m = divmod(n, 12)
    last = 29 if m == 1 and leap(y) else MDAYS[m]
    return t.replace(year=y, month=m + 1, day=min(t.day, last))


UNIT = dict(millisecond=1000, second=10 ** 6, minute=60 * 10 ** 6, hour=3600 * 10 ** 6, day=86400 * 10 ** 6, week=7 * 86400 * 10 ** 6)


def want(gran, start, i):
    if gran == "month":
        return add_months(start, i)
    if gran == "year":
        return add_months(start, 12 * i)
    return start + timedelta(microseconds=UNIT[gran] * i)


def reachable(gran, start, i):
    """The calendar ends with the year 9999."""
    try:
        return 0 < want(gran, start, i).year <= 9999
    except (ValueError, OverflowError):
        return False


STARTS = [datetime(2016, 1, 31), datetime(2016, 2, 29, 12, 30, 15, 250000), datetime(2015, 12, 31, 23, 59, 59, 999000), datetime(2017, 3, 1),
          datetime(1999, 11, 30), datetime(2000, 2, 29), datetime(1896, 2, 29), datetime(2015, 8, 31), datetime(2018, 5, 15, 6),
          datetime(2100, 1, 29), datetime(2016, 6, 30), datetime(2016, 2, 28, 23, 59, 59, 999999),
          datetime(2015, 8, 31, 4, 5, 6, 123456),
          datetime(2016, 1, 31, 22, 15, tzinfo=timezone(timedelta(hours=5, minutes=30))), datetime(2019, 12, 31, tzinfo=timezone.utc)]


def sweep(chk, item):
    gran, start = item
    c = Clock("C", start_datetime=start, timestep_period_duration=TimePeriod[gran])
    n = 1500 if chk.quick else 6000
    idx = list(range(-60, 12001 if chk.quick else 40001)) + [365 * k for k in range(30)] + [365 * k + 1 for k in range(30)]
    # far away, where the calendar reaches
    far = [52 * k for k in range(30, 400)] + [10 ** k for k in range(4, 12)] + [2 ** k for k in range(11, 36)] + [8760 * k for k in range(1, 100, 7)] + [86400 * k for k in range(1, 400, 13)]
    if gran in UNIT:
        idx += [i for i in far if UNIT[gran] * i < 7000 * 366 * 86400 * 10 ** 6]
    else:
        idx += range(1500, 95000, 7 if gran == "year" or not chk.quick else 29)
    idx = [i for i in set(idx) if reachable(gran, start, i)]
    prev = None
    for i in sorted(set(idx)):
        case = dict(granularity=gran, start=str(start), index=i)
        with chk.guard("index", case):
            w = want(gran, start, i)
            got = c.get_datetime_at_period_ix(i)
            chk.step()
            chk.eq(got, w, "index/" + gran, case)
            chk.expect(got.utcoffset() == start.utcoffset(), "index/offset", lambda: "offset %s, the start has %s" % (got.utcoffset(), start.utcoffset()), case)
            chk.expect(c.timestep_ix == 0 and c.get_datetime() == start, "query-moves", "querying a period moved the clock", case)
            if prev is not None:
                chk.expect(got > prev, "increasing", lambda: "time %s does not follow %s" % (got, prev), case)
            prev = got
            chk.state((gran, start, i))
    # ticking reaches every index
    for i in range(n):
        case = dict(granularity=gran, start=str(start), ticks=i)
        with chk.guard("tick", case):
            chk.eq(c.get_datetime(), want(gran, start, i), "tick/" + gran, case)
            chk.eq(c.timestep_ix, i, "tick-index", case)
            c.tick()
            chk.step()
    with chk.guard("reset", []):
        c.reset()
        chk.eq(c.get_datetime(), start, "reset/" + gran, [gran, str(start)])
    chk.trace([gran, str(start)])
    chk.outcome(gran)


class Hist:
    def __init__(self, gran, start):
        self.gran, self.start = gran, start

    def new(self):
        return Clock("C", start_datetime=self.start, timestep_period_duration=TimePeriod[self.gran]), dict(ix=0, gran=self.gran, start=self.start)

    def opname(self, op):
        return op[0]

    def ops(self, m):
        yield ("tick",)
        yield ("reset",)
        yield ("query", 7)
        yield ("now",)
        yield ("jump", 5)
        for g in ("month", "day", "year"):
            if g != m["gran"]:
                yield ("granularity", g)
        yield ("restart",)

    def apply(self, chk, c, m, op, hist):
        if op[0] == "tick":
            c.tick(); m["ix"] += 1
        elif op[0] == "reset":
            c.reset(); m["ix"] = 0
        elif op[0] == "query":
            chk.eq(c.get_datetime_at_period_ix(op[1]), want(m["gran"], m["start"], op[1]), "history/query", hist)
        elif op[0] == "now":
            chk.eq(c.get_datetime(), want(m["gran"], m["start"], m["ix"]), "history/now", hist)
        elif op[0] == "jump":
            c.timestep_ix = op[1]; m["ix"] = op[1]
        elif op[0] == "granularity":
            c.timestep_period_duration = TimePeriod[op[1]]; m["gran"] = op[1]
        elif op[0] == "restart":
            m["start"] = datetime(2017, 8, 31); c.start_datetime = m["start"]

    def canon(self, c, m):
        return (m["ix"], m["gran"], m["start"], repr(sorted((k, str(v)) for k, v in vars(c).items())))

    def check(self, chk, c, m, hist):
        chk.eq(c.get_datetime(), want(m["gran"], m["start"], m["ix"]), "history/time", hist)
        chk.eq(c.timestep_ix, m["ix"], "history/index", hist)
        chk.eq(c.get_datetime_at_period_ix(m["ix"]), want(m["gran"], m["start"], m["ix"]), "history/at", hist)
        chk.expect(c.start_datetime == m["start"], "history/start", "start moved", hist)


def text(chk):
    for y, mth in itertools.product((1999, 2000, 2015, 2016, 2100), range(1, 13)):
        for d in (1, 2, 12, 28, 29, 30, 31):
            s = "%04d-%02d-%02d" % (y, mth, d)
            last = 29 if mth == 2 and leap(y) else MDAYS[mth - 1]
            with chk.guard("text", s):
                chk.step()
                try:
                    got = get_date(s)
                except ValueError:
                    chk.expect(d > last, "text/rejected", "valid date rejected", s)
                    continue
                chk.expect(d <= last, "text/accepted", lambda: "impossible date gave %r" % got, s)
                chk.expect(got == date(y, mth, d) and not isinstance(got, datetime), "text/value", lambda: "gave %r" % (got,), s)
                m = TimeBasedModel("M", start_datetime=s)
                chk.eq(m.clock.get_datetime(), datetime(y, mth, d), "text/model", s)
                a = Activity("a", start=s, end=s)
                chk.eq(a.start_datetime, datetime(y, mth, d), "text/activity-start", s)
                chk.eq(a.end_datetime, datetime(y, mth, d), "text/activity-end", s)
                chk.trace(s)
    for s in ("", "2016", "2016-13-01", "2016-00-10", "01-02-2016", "2016/01/02", "2016-01-02 10:00", "x", "2016-02-30"):
        chk.step()
        try:
            got = get_date(s)
            chk.fail("text/malformed", "malformed date %r gave %r" % (s, got), s)
        except ValueError:
            chk.outcome("malformed rejected")
        except Exception as e:
            chk.fail("text/malformed-raises", "malformed date %r raised %r" % (s, e), s)
    for v in (date(2016, 2, 29), datetime(2016, 2, 29, 3, 4, 5), datetime.min):
        with chk.guard("object", str(v)):
            chk.expect(get_date(v) == v and type(get_date(v)) is type(v), "object", "date object not returned as it is", str(v))
            m = TimeBasedModel("M", start_datetime=v)
            chk.eq(m.clock.get_datetime(), v if isinstance(v, datetime) else datetime(v.year, v.month, v.day), "object/model", str(v))
    # clocks are independent and configured as asked
    with chk.guard("independent", []):
        a = Clock("A", start_datetime=STARTS[0]); b = Clock("B", start_datetime=STARTS[1], timestep_period_duration=TimePeriod.day)
        a.tick(); a.tick(); b.tick()
        chk.eq(a.get_datetime(), want("month", STARTS[0], 2), "independent/month-default", "two clocks")
        chk.eq(b.get_datetime(), want("day", STARTS[1], 1), "independent/day", "two clocks")
        chk.expect(a.name == "A" and b.name == "B", "independent/name", "names", "two clocks")


def run(chk):
    text(chk)
    chk.parallel(sweep, [(g, s) for g in [t.name for t in TimePeriod] for s in STARTS])
    for g in [t.name for t in TimePeriod]:
        bfs(chk, Hist(g, STARTS[1]), 8 if chk.quick else 11, "history-" + g, procs=1, max_states=10000 if chk.quick else 100000)
