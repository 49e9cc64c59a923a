"""C02: saving and reading back. Every object state reached by the histories of the alphabet is written and
read; the copy is compared with the original in text, in observable behaviour, and under every further operation."""
import itertools, json, math, os, subprocess, sys, warnings
from datetime import datetime, date
from auxi.core.objects import Object, NamedObject
from auxi.core.time import Clock, TimePeriod
from auxi.core.reporting import ReportFormat
from auxi.core.helpers import get_path_relative_to_module
from auxi.modelling.core import Project, Variable
from auxi.modelling.process.core import Model, SteadyStateModel, DynamicModel
from auxi.modelling.financial.des import (AccountType, GeneralLedgerAccount, Transaction, TransactionTemplate,
                                          GeneralLedgerStructure, GeneralLedger)
from auxi.modelling.business.structure import Activity, Component, Entity
from auxi.modelling.business.models import TimeBasedModel
from auxi.modelling.business.basic import BasicActivity, BasicLoanActivity
from auxi.tools.chemistry import thermochemistry as th
from auxi.tools.materialphysicalproperties import core as pcore, polynomial, gases, idealgas, slags, coals, liquids
from mc import core, ledger as L

T0 = datetime(2016, 2, 1)


def val(f):
    """Outcome of a call: value or kind of exception."""
    try:
        v = f()
    except Exception as e:
        return "raises " + type(e).__name__
    if isinstance(v, float):
        return "%.12g" % v
    return repr(v)


# ---------------------------------------------------------------- observers (behaviour, not representation)
def o_named(o):
    return [o.name, o.description]


def o_variable(o):
    return o_named(o) + [o.value, o.units, o.category, o()]


def o_clock(o):
    return o_named(o) + [o.timestep_ix, o.get_datetime()] + [o.get_datetime_at_period_ix(i) for i in (0, 1, 5, 13, 25)]


def accounts(roots):
    out = []
    def walk(a):
        out.append(a)
        for k in a.accounts:
            walk(k)
    for a in roots:
        walk(a)
    return out


def o_account(o):
    return [(a.name, a.path, a.number, a.description, a.account_type) for a in accounts([o])] + \
        [val(lambda: o.get_child_account(n).path) for n in ("A", "B", "A/A", "nope")]


def o_gls(g):
    acc = accounts(g.accounts)
    out = [g.name, g.description, [(a.name, a.path, a.number, a.description, a.account_type) for a in acc]]
    out += [g.get_account(a.path) is a for a in acc]
    out += [val(lambda: g.validate_account_names([a.path for a in acc])), val(lambda: g.validate_account_names(["nope"]))]
    out += [val(lambda: g.get_account("nope/x")), g.report(ReportFormat.string)]
    out += [[x.path for x in g.get_account_descendants(a)] for a in g.accounts]
    # the accounts the year-end procedure uses are accounts of this structure
    e = Entity("probe", g)
    c = e.create_component("c")
    c.add_activity(BasicActivity("s", "Bank/Default", "Other Income", amount=5.0))
    k = Clock("k", start_datetime=T0, timestep_period_duration=TimePeriod.month)
    e.prepare_to_run(k, 14)
    for i in range(14):
        e.run(k); k.tick()
    out.append(txs(e.gl))
    return out


def txs(gl):
    return [(t.name, t.description, t.tx_date, t.dt_account, t.cr_account, t.source, t.amount, t.is_closing_cr_account, t.is_closing_dt_account)
            for t in gl.transactions]


def o_gl(g):
    out = [g.name, g.description, txs(g)]
    out += [val(lambda: g.balance_sheet(end=datetime(2030, 1, 1), format=ReportFormat.string)),
            val(lambda: g.income_statement(start=datetime(2000, 1, 1), end=datetime(2030, 1, 1), format=ReportFormat.string)),
            val(lambda: g.transaction_list(start=datetime(2000, 1, 1), end=datetime(2030, 1, 1), format=ReportFormat.string))]
    out += [(a.name, a.path, a.account_type) for a in accounts(g.structure.accounts)]
    return out


def o_tx(t):
    return [t.name, t.description, t.tx_date, t.dt_account, t.cr_account, t.source, t.amount, t.is_closing_cr_account, t.is_closing_dt_account]


def o_template(t):
    return [t.name, t.description, t.dt_account, t.cr_account]


def o_activity(a):
    return [a.name, a.path, a.description, a.start_datetime, a.end_datetime, a.interval, a.get_referenced_accounts()] + \
        [getattr(a, k, None) for k in ("amount", "interest_rate", "duration", "dt_account", "cr_account", "bank_account", "loan_account", "interest_account")] + \
        post(a)


def post(a):
    gl = GeneralLedger("p", SG)
    c = Clock("c", start_datetime=T0, timestep_period_duration=TimePeriod.month)
    if not hasattr(a, "run"):
        return []
    a.prepare_to_run(c, 9)
    for i in range(9):
        a.run(c, gl); c.tick()
    return txs(gl)


SG = L.structure()


def o_component(c):
    out = [c.name, c.path, c.description, [o_component(x) for x in c.components], [o_activity(a) for a in c.activities]]
    out += [all(x.gl is c.gl for x in c.components), val(lambda: c["A"].path), val(lambda: c("x").path)]
    return out


def o_entity(e):
    out = [e.name, e.path, e.description, [o_component(c) for c in e.components], all(c.gl is e.gl for c in e.components), txs(e.gl)]
    out += [val(lambda: e["A"].path)]
    k = Clock("k", start_datetime=T0, timestep_period_duration=TimePeriod.month)
    e.prepare_to_run(k, 13)
    for i in range(13):
        e.run(k); k.tick()
    return out + [txs(e.gl)]


def o_model(m):
    out = [m.name, m.description, m.period_count, o_clock(m.clock), [txs(e.gl) for e in m.entities], [(e.name, e.path) for e in m.entities]]
    m.run()
    out += [[txs(e.gl) for e in m.entities], m.clock.timestep_ix]
    out += [[o_component(c) for c in e.components] for e in m.entities]
    return out + [o_gl(e.gl) for e in m.entities]


def o_compound(c):
    out = [c.formula, c.molar_mass, c.get_phase_list(), val(c.get_reference)]
    for p in c.get_phase_list():
        for T in (200.0, 298.15, 500.0, 1000.0, 1811.0, 3000.0, 9000.0):
            for f in ("Cp", "H", "S", "G"):
                out.append(val(lambda: getattr(c, f)(p, T)))
    for f in ("Cp", "H", "S", "G"):
        out.append(val(lambda: getattr(c, f)("nope", 300.0)))
    return out


def o_process(m):
    return o_named(m) + [sorted(vars(m.parameters).items()), sorted(vars(m.input_variables).items()), sorted(vars(m.output_variables).items()),
                         val(lambda: m.run({}))]


def o_property(states):
    def f(m):
        out = [m.material, m.property, m.symbol, m.display_symbol, m.units, m.references, m.datasets]
        for s in states:
            out.append(val(lambda: m(**dup(s))))
            out.append(val(lambda: m.calculate(**dup(s))))
        return out
    return f


def dup(x):
    return {k: dup(v) for k, v in x.items()} if isinstance(x, dict) else x


# ---------------------------------------------------------------- builders: (name, new, ops, observe, depth)
def op_setattr(k, v):
    def f(o):
        setattr(o, k, v)
    f.__name__ = "%s=%r" % (k, v)
    return f


def named(name, f):
    f.__name__ = name
    return f


NAMEOPS = [op_setattr("name", "Ünïcode \"q\" \\ name"), op_setattr("description", None), op_setattr("description", "line\nbreak\ttab 'x'")]


def gl_new():
    return GeneralLedger("GL", L.structure(), "desc")


def gl_ops():
    def p(dt, cr, amt, when, **kw):
        return named("post %s %s" % (dt, cr), lambda g: L.post(g, dt, cr, amt, when, **kw))
    return [p("Bank/Default", "Sales/Delivery", 100.25, datetime(2016, 3, 1, 12, 30, 1, 250000)),
            p("Expense/Wages", "Bank/Default", 1e-7, datetime(2016, 3, 2), closing="c", description="ü"),
            p("Inventory", "Account Payable", 12345678901.25, datetime(2016, 3, 2), closing="d"),
            named("rename account", lambda g: setattr(g.structure["Sales"], "name", "Turnover") if g.structure.get_account("Sales") is not None else None)]


def gls_ops():
    return [named("create A", lambda g: g["Sales"].create_account("A", "001") if g["Sales"].get_child_account("A") is None else None),
            named("create A/B", lambda g: g["Sales"]["A"].create_account("B", "002", "d") if g["Sales"].get_child_account("A") is not None and g["Sales"]["A"].get_child_account("B") is None else None),
            named("remove A", lambda g: g["Sales"].remove_account("A")),
            named("rename Bank", lambda g: setattr(g["Expense"], "name", "Costs") if g.get_account("Expense") is not None else None),
            op_setattr("name", "other")]


def acc_ops():
    def mk(n):
        def f(o):
            if o.get_child_account(n) is None:
                o.create_account(n, None, "x")
        return named("create " + n, f)
    return [mk("A"), mk("B"), named("deep", lambda o: o["A"].create_account("A", "7") if o.get_child_account("A") is not None and o.get_child_account("A/A") is None else None),
            named("remove A", lambda o: o.remove_account("A")), op_setattr("name", "N"), named("move", lambda o: o.set_parent_path("P/Q"))]


def entity_new():
    return Entity("E", L.structure(), "d")


def act(n="x", kind=0):
    if kind == 0:
        return BasicActivity(n, "Bank/Default", "Other Income/Rent", amount=2.5, start=datetime(2016, 2, 15), interval=2)
    return BasicLoanActivity(n, "Bank/Default", "Long Term Borrowing/Loan", "Expense/Wages", amount=100.0, interest_rate=0.1, duration=4, start=T0)


def has(o, n):
    return any(c.name == n for c in o.components)


def entity_ops():
    return [named("create A", lambda e: None if has(e, "A") else e.create_component("A", "dd")),
            named("create A/A", lambda e: None if not has(e, "A") or has(e["A"], "A") else e["A"].create_component("A")),
            named("activity", lambda e: None if not has(e, "A") or e["A"].activities else e["A"].add_activity(act())),
            named("loan", lambda e: None if not has(e, "A") or len(e["A"].activities) > 1 else e["A"].add_activity(act("y", 1))),
            named("remove A", lambda e: e.remove_component("A")), op_setattr("name", "F"),
            named("move", lambda e: e.set_parent_path("M"))]


def comp_new():
    return Component("C", GeneralLedger("GL", L.structure()), "d")


def comp_ops():
    return [named("create A", lambda c: None if has(c, "A") else c.create_component("A")),
            named("activity", lambda c: None if len(c.activities) else c.add_activity(act())),
            named("loan", lambda c: None if len(c.activities) > 1 else c.add_activity(act("y", 1))),
            named("deep activity", lambda c: None if not has(c, "A") or c["A"].activities else c["A"].add_activity(act("z"))),
            op_setattr("name", "D"), named("move", lambda c: c.set_parent_path("M/E"))]


def model_new():
    return TimeBasedModel("M", "d", start_datetime=T0, period_duration=TimePeriod.month, period_count=13)


def model_ops():
    def add(m):
        if not any(e.name == "E" for e in m.entities):
            m.create_entity("E", L.structure())
    def fill(m):
        if any(e.name == "E" for e in m.entities) and not m["E"].components:
            c = m["E"].create_component("A"); c.add_activity(act()); c.create_component("B").add_activity(act("y", 1))
    return [named("entity", add), named("fill", fill), named("run", lambda m: m.run()), named("remove", lambda m: m.remove_entity("E")),
            op_setattr("period_count", 3), op_setattr("name", "N"), named("tick", lambda m: m.clock.tick()),
            named("granularity", lambda m: setattr(m.clock, "timestep_period_duration", TimePeriod.week))]


def loan_ops():
    return [op_setattr("amount", 55.5), op_setattr("interest_rate", 0.0), op_setattr("duration", 2), op_setattr("name", "q"), named("run", post),
            named("move", lambda a: a.set_parent_path("P"))]


def process_ops():
    return NAMEOPS[:2] + [named("parameter", lambda m: setattr(m.parameters, "k", 1.5)), named("input", lambda m: setattr(m.input_variables, "flow", "x"))]


GASX = [dict(T=300.0, x={"N2": 0.5, "O2": 0.5}), dict(T=500.0, x={"CO2": 1.0}), dict(T=300.0), dict(x={"N2": 1.0}), dict(T=-1.0, x={"N2": 1.0}),
        dict(T="a", x={"N2": 1.0}), {}, dict(T=1500.0, x={"H2O": 0.25, "N2": 0.75})]
SLAGX = [dict(T=1800.0, x={"SiO2": 0.4, "CaO": 0.4, "Al2O3": 0.2}), dict(T=1900.0, x={"SiO2": 0.5, "MgO": 0.2, "CaO": 0.3}), dict(T=1800.0), dict(T=-5.0, x={"SiO2": 1.0}), {}]
SLAGY = [dict(T=s["T"], y=s["x"]) for s in SLAGX if "x" in s] + [{}, dict(T=1800.0)]
COAL = [dict(T=500.0, y_C=0.8, y_H=0.1, y_O=0.1, y_N=0.0, y_S=0.0), dict(T=900.0, y_C=0.9, y_H=0.05, y_O=0.03, y_N=0.01, y_S=0.01), dict(T=500.0), {},
        dict(T=500.0, y_C=2.0, y_H=0.1, y_O=0.1, y_N=0.0, y_S=0.0), dict(T=-1.0, y_C=0.8, y_H=0.1, y_O=0.1, y_N=0.0, y_S=0.0)]
TS = [dict(T=t) for t in (99.0, 100.0, 250.0, 300.0, 500.0, 1500.0, 2200.0, 2500.0, 5000.0, -1.0, "x")] + [{}, dict(T=300.0, P=1.0)]


def poly_new(sym, deg):
    def f():
        ds = pcore.DataSet(get_path_relative_to_module(pcore.__file__, "data/dataset-air-lienhard2015.csv"))
        return polynomial.PolynomialModelT.create(ds, sym, deg)
    return f


def property_items():
    out = []
    def add(name, new, states):
        out.append((name, new, [op_setattr("material", "stuff")], o_property(states), 1))
    tp = [dict(T=300.0, P=101325.0), dict(T=300.0), dict(P=1e5), dict(T=-1.0, P=1.0), {}]
    add("BetaT", idealgas.BetaT, TS)
    add("RhoT", lambda: idealgas.RhoT(28.0, 101325.0), TS)
    add("RhoTP", lambda: idealgas.RhoTP(28.0), tp + TS[:3])
    add("RhoTPx", idealgas.RhoTPx, [dict(T=300.0, P=101325.0, x={"N2": 0.5, "O2": 0.5}), dict(T=300.0, P=101325.0, x={"CO2": 1.0}), dict(T=300.0), {}])
    for n in ("WilkeMuTx", "HerningZippererMuTx", "IdealCpTx"):
        add(n, getattr(gases, n), GASX)
    for n in ("RiboudViscosityTx", "UrbainViscosityTx"):
        add(n, getattr(slags, n), SLAGX)
    for n in ("RiboudViscosityTy", "UrbainViscosityTy"):
        add(n, getattr(slags, n), SLAGY)
    for n in ("DafCpTy", "DafHTy"):
        add(n, getattr(coals, n), COAL)
    for sym, deg in (("rho", 3), ("mu", 0), ("Cp", 2)):
        add("Polynomial-%s-%d" % (sym, deg), poly_new(sym, deg), TS)
    return out


def made_compound(magnetic):
    d = dict(Formula="Fe", Phases=dict(
        S=dict(Symbol="S", DHref=-1000.5, Sref=27.25, Cp_records={"800.0": dict(Tmin=298.15, Tmax=800.0, Terms=[dict(Coefficient=20.5, Exponent=0.0), dict(Coefficient=1e-3, Exponent=1.0)]),
                                                                    1811: dict(Tmin=800, Tmax=1811, Terms=[dict(Coefficient="25.5", Exponent="0"), dict(Coefficient=3e5, Exponent=-2.0), dict(Coefficient=2, Exponent=-1)])}),
        L=dict(DHref=5.0, Sref=1.0, Cp_records={"3000.0": dict(Tmin=298.15, Tmax=3000.0, Terms=[dict(Coefficient=46.0, Exponent=0.0)])})))
    if magnetic:
        d["Phases"]["S"]["magnetic"] = dict(Tc=1043.0, beta0=2.22, p=0.4)
    return th.Compound(d)


def deep_account(n):
    r = a = GeneralLedgerAccount("R", "d", "010", AccountType.asset)
    for i in range(n):
        a = a.create_account("L%d" % i, "%03d" % i, "level %d" % i)
    return r


def deep_gls(n):
    g = GeneralLedgerStructure("G")
    a = g["Sales"]
    for i in range(n):
        a = a.create_account("L%d" % i, "%03d" % i, "level %d" % i)
    return g


def deepen(e, n):
    c = e
    for i in range(n):
        c = c.create_component("L%d" % i, "level %d" % i)
        if i == n - 1 or i == n // 2:
            c.add_activity(act("x%d" % i)); c.add_activity(act("y%d" % i, 1))
    return e


def deep_entity(n):
    return deepen(Entity("E", L.structure(), "d"), n)


def deep_model(n):
    m = model_new()
    deepen(m.create_entity("E", L.structure()), n)
    m.create_entity("F", L.structure())
    return m


def items(quick):
    d = 2 if quick else 3
    its = [("NamedObject", lambda: NamedObject("a", "b"), NAMEOPS, o_named, d),
           ("Project", lambda: Project("a", "b"), NAMEOPS, o_named, d),
           ("Variable", lambda: Variable("v", 1.5, "kg", "c", "d"), NAMEOPS[:2] + [op_setattr("value", v) for v in (0, -2.5e-300, 1e300, "text", [1, 2.5, None], True)] + [op_setattr("units", None)], o_variable, d),
           ("Clock", lambda: Clock("c", start_datetime=datetime(2016, 1, 31, 1, 2, 3, 4)), [named("tick", lambda c: c.tick()), named("reset", lambda c: c.reset())] +
            [op_setattr("timestep_period_duration", g) for g in TimePeriod] + [op_setattr("start_datetime", datetime(2020, 2, 29))], o_clock, d),
           ("Account", lambda: GeneralLedgerAccount("R", "d", "010", AccountType.liability), acc_ops(), o_account, d + 1),
           ("Transaction", lambda: Transaction("t", description="d", tx_date=datetime(2016, 1, 2, 3, 4, 5, 6), dt_account="Bank/Default", cr_account="Sales", source="/a/b", amount=1.1),
            [op_setattr("amount", 0.1 + 0.2), op_setattr("is_closing_cr_account", True), op_setattr("tx_date", date(2016, 1, 1)), op_setattr("source", None)], o_tx, d),
           ("TransactionTemplate", lambda: TransactionTemplate("t", description="d", dt_account="Bank", cr_account="Sales"), NAMEOPS, o_template, 1),
           ("GeneralLedgerStructure", lambda: GeneralLedgerStructure("G", "d"), gls_ops(), o_gls, d),
           ("GeneralLedger", gl_new, gl_ops(), o_gl, d),
           ("BasicActivity", lambda: BasicActivity("x", "Bank/Default", "Sales", amount=2.0, start="2016-02-15", end=datetime(2016, 7, 1), interval=2, description="dd"),
            [op_setattr("amount", 3.25), op_setattr("interval", 1), op_setattr("start_datetime", datetime.min), op_setattr("end_datetime", datetime.max), op_setattr("name", "y"), named("run", post)], o_activity, d),
           ("BasicLoanActivity", lambda: act("L", 1), loan_ops(), o_activity, d),
           ("Activity", lambda: Activity("x"), [op_setattr("name", "y"), op_setattr("interval", 3)], o_activity, d),
           ("Component", comp_new, comp_ops(), o_component, d),
           ("Entity", entity_new, entity_ops(), o_entity, d + 1 if not quick else d),
           ("TimeBasedModel", model_new, model_ops(), o_model, d + 1 if not quick else 2)]
    for cls in (Model, SteadyStateModel, DynamicModel):
        its.append((cls.__name__, lambda cls=cls: cls("p", "d"), process_ops(), o_process, d))
    for n in ((3, 9, 20) if quick else (3, 6, 9, 14, 20, 30)):
        its += [("Account-deep%d" % n, lambda n=n: deep_account(n), acc_ops()[:2], o_account, 0 if quick else 1),
                ("GeneralLedgerStructure-deep%d" % n, lambda n=n: deep_gls(n), gls_ops()[:1], o_gls, 0 if quick else 1),
                ("Entity-deep%d" % n, lambda n=n: deep_entity(n), entity_ops()[:1], o_entity, 0 if quick else 1),
                ("TimeBasedModel-deep%d" % n, lambda n=n: deep_model(n), model_ops()[:1], o_model, 0)]
    its.append(("TimeBasedModel-shared", shared_model, model_ops()[2:4] + [named("account", lambda m: m.entities[-1].gl.structure["Bank"].create_account("X") if m.entities[-1].gl.structure["Bank"].get_child_account("X") is None else None)], o_shared, 1 if quick else 2))
    its += property_items()
    data = os.path.dirname(th.default_data_path)
    for d in sorted(os.listdir(data)):
        if os.path.isdir(os.path.join(data, d)):
            for f in sorted(os.listdir(os.path.join(data, d))):
                if f.startswith("Compound_"):
                    p = os.path.join(data, d, f)
                    its.append(("Compound-%s/%s" % (d, f), lambda p=p: th.Compound.read(p), [], o_compound, 0))
    for mag in (False, True):
        its.append(("Compound-made%d" % mag, lambda mag=mag: made_compound(mag), [], o_compound, 0))
    return its


TEXTS = ["", " ", "  lead", "trail  ", "a\tb", "a\nb", "a\r\nb", "a\rb", "\u2028", "\u00e9", "e\u0301", "\u4e2d\u6587", "\U0001f600", "\x00", "\x1b[0m", "\x7f", "\ufeffx", "\\", "\\n", "\"", "'", "{}", "[1]",
         "null", "None", "true", "1", "1.0", "01", "1e5", "NaN", "2016-01-01", "2016-01-01T00:00:00", "py/object", "#", "%s", "a/b", "..", "x" * 300, "x" * 5000]
NUMBERS = [0, 1, -1, 255, 2 ** 31, 2 ** 53 + 1, 2 ** 64, 10 ** 30, -(2 ** 63), True, False, 0.0, -0.0, 0.1, 1 / 3, 0.1 + 0.2, 1e-7, 1e-4, 123456.789, 1234567.1234567, 1e15 + 0.3, 1e16, 1e22, 1.7e308, 5e-324,
           2.2250738585072014e-308, float("inf"), float("-inf"), float("nan"), 9007199254740993.0, 4.35, 2.675, 1.0000000000000002]
COLLECTIONS = [[], [1, 2.5, "x", None], [[1], [2, [3]]], (), (1, 2), ((1,), "a"), {}, {"a": 1}, {"b": 1, "a": 2}, {"a": {"b": [1, (2, 3)]}}, {"T": 300.0, "x": {"N2": 0.5}}, set(), {1, 2}, [0.1] * 50,
               datetime(2016, 2, 29, 23, 59, 59, 999999), datetime.min, datetime.max, date(2016, 2, 29), TimePeriod.week, AccountType.equity, None]
DATES = [datetime(1, 1, 1), datetime(9999, 12, 31, 23, 59, 59, 999999), datetime(2016, 2, 29), datetime(2016, 1, 2, 3, 4, 5, 1), datetime(1969, 12, 31, 23, 59, 59), datetime(1900, 3, 1, 12),
         datetime(2016, 1, 1, 0, 0, 0, 999999), datetime(2016, 12, 31, 23, 59), date(2016, 1, 1), None]


def identical(a, b):
    """Same type, same value, bit for bit."""
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return repr(a) == repr(b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(identical(a[k], b[k]) for k in a)
    return a == b


def values(chk, item):
    """Every value an attribute can hold comes back as that value."""
    what, ix = item
    if what == "text":
        v = TEXTS[ix]
        objs = [(NamedObject(v, v), ("name", "description")), (NamedObject("n", v), ("name", "description")), (Variable(v, v, v, v, v), ("name", "value", "units", "category", "description")),
                (Transaction(v, description=v, tx_date=T0, dt_account=v, cr_account=v, source=v, amount=1.0), ("name", "description", "dt_account", "cr_account", "source")),
                (GeneralLedgerAccount(v, v, v, AccountType.asset), ("name", "description", "number", "path")), (BasicActivity(v, v, v, amount=1.0, description=v), ("name", "path", "dt_account", "cr_account", "description")),
                (TransactionTemplate(v, description=v, dt_account=v, cr_account=v), ("name", "description", "dt_account", "cr_account")), (Clock(v, start_datetime=T0), ("name",)), (Project(v, v), ("name", "description"))]
    elif what == "number":
        v = NUMBERS[ix]
        objs = [(Variable("v", v), ("value",)), (Transaction("t", tx_date=T0, amount=v), ("amount",)), (BasicActivity("a", "x", "y", amount=v), ("amount",)), (Variable("v", [v, (v, {"k": v})]), ("value",))]
    elif what == "collection":
        v = COLLECTIONS[ix]
        objs = [(Variable("v", v), ("value",)), (Variable("v", [v, v]), ("value",)), (Variable("v", {"k": v}), ("value",))]
    else:
        v = DATES[ix]
        objs = [(Transaction("t", tx_date=v, amount=1.0), ("tx_date",)), (Transaction("t", tx_date=v, amount=1.0, source=v), ("tx_date", "source"))]
        if isinstance(v, datetime):
            objs += [(Clock("c", start_datetime=v), ("start_datetime",)), (BasicActivity("a", "x", "y", amount=1.0, start=v, end=v), ("start_datetime", "end_datetime"))]
    for o, attrs in objs:
        for name in ("obj.json", "a b.json", "noext", "r.p.t", "\u00fc.json"):
            case = dict(object=type(o).__name__, value=repr(v), file=name)
            with chk.guard("values/" + what, case):
                d = os.path.join(chk.scratch, "val-%d" % os.getpid())
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, name)
                want = {k: getattr(o, k) for k in attrs}
                text = str(o)
                o.write(path)
                chk.expect(os.listdir(d) == [name], "values/files", lambda: "files written: %r" % os.listdir(d), case)
                c = Object.read(path)
                os.unlink(path)
                chk.step(2)
                for k in attrs:
                    chk.expect(identical(getattr(c, k), want[k]), "values/" + what, lambda: "%s reads back as %r" % (k, getattr(c, k)), case)
                    chk.expect(getattr(o, k) is want[k] or getattr(o, k) == want[k], "values/write-changes", lambda: "%s became %r" % (k, getattr(o, k)), case)
                chk.expect(str(c) == text, "values/text", lambda: "text of the copy differs: " + diff(text, str(c)), case)
                chk.trace(case)
        chk.state((what, ix, type(o).__name__))


def shared_model():
    """Two entities on one ledger structure, which stays one after reading back."""
    m = model_new()
    s = L.structure()
    deepen(m.create_entity("E", s), 2)
    deepen(m.create_entity("F", s), 1)
    return m


def o_shared(m):
    s = m.entities[0].gl.structure
    out = [all(e.gl.structure is s for e in m.entities), len(set(id(e.gl) for e in m.entities)) == len(m.entities)]
    s["Sales"].create_account("new", "999") if s["Sales"].get_child_account("new") is None else None
    out += [val(lambda: e.gl.structure.get_account("Sales/new").path) for e in m.entities]
    out += [all(c.gl is e.gl for c in e.components) for e in m.entities]
    return out + o_model(m)


def reach(new, hist, ops):
    o = new()
    for i in hist:
        ops[i](o)
    return o


def one(chk, item):
    name, new, ops, observe, depth = item
    kind = name.split("-")[0]
    path = os.path.join(chk.scratch, "obj-%d.json" % os.getpid())
    seen = set()
    level = [()]
    for d in range(depth + 1):
        nxt = []
        for h in level:
            case = dict(object=name, history=[ops[i].__name__ for i in h])
            with chk.guard("%s" % kind, case):
                chk.step(len(h) + 2)
                text = str(reach(new, h, ops))
                if text in seen:
                    chk.trace()
                    continue
                seen.add(text)
                chk.state((name, text))
                o = reach(new, h, ops)
                o.write(path)
                chk.eq(str(o), text, kind + "/write-changes", case, what="object after writing")
                copy = Object.read(path)
                chk.expect(type(copy) is type(o), kind + "/type", lambda: "read back a %r" % type(copy), case)
                chk.expect(str(copy) == text, kind + "/text", lambda: "text of the copy differs: " + diff(text, str(copy)), case)
                copy.write(path)
                again = type(o).read(path)
                chk.expect(str(again) == text, kind + "/second-text", lambda: "text of the second copy differs: " + diff(text, str(again)), case)
                want = observe(reach(new, h, ops))
                keep(chk, name, o, dict(case, want=repr(want)))
                for who, x in (("original", o), ("copy", copy), ("second copy", again)):
                    got = observe(x)
                    chk.expect(got == want, kind + "/behaviour", lambda: "%s behaves differently: %s" % (who, first(want, got)), case)
                # every further operation, on a written original and on a copy
                for i, op in enumerate(ops):
                    a = reach(new, h, ops); a.write(path)
                    b = Object.read(path)
                    op(a); op(b)
                    chk.step(2)
                    oa, ob = observe(a), observe(b)
                    chk.expect(oa == ob, kind + "/continue", lambda: "after %s: %s" % (op.__name__, first(oa, ob)), case)
                    if d < depth:
                        nxt.append(h + (i,))
                chk.trace(case)
                chk.outcome(kind)
        level = nxt


def keep(chk, name, o, record):
    """Leave the file and what is expected of it to be read by another process."""
    d = os.path.join(chk.scratch, "fresh")
    os.makedirs(d, exist_ok=True)
    n = len(os.listdir(d))
    base = os.path.join(d, "%d-%d" % (os.getpid(), n))
    o.write(base + ".obj")
    with open(base + ".case", "w") as f:
        json.dump(record, f)


READER = """
import sys, json
from auxi.core.objects import Object
read = []
for base in open(sys.argv[1]).read().split("\\n"):
    try:
        o = Object.read(base + ".obj")
        read.append((base, o, str(o), None))
    except Exception as e:
        read.append((base, None, None, "reading raises %r" % e))
sys.path.insert(0, sys.argv[2])
from mc.checks import c02
observers = {i[0]: i[3] for i in c02.items(sys.argv[4] == "quick")}
out = []
for base, o, text, err in read:
    case = json.load(open(base + ".case"))
    if err is None and text != open(base + ".obj").read():
        err = "the text differs: " + c02.diff(open(base + ".obj").read(), text)
    if err is None:
        try:
            got = repr(observers[case["object"]](o))
            if got != case["want"]:
                err = "behaves differently: %.300s, expected %.300s" % (got, case["want"])
        except Exception as e:
            err = "using it raises %r" % e
    out.append((type(o).__name__, case["object"], case["history"], err))
json.dump(out, open(sys.argv[3], "w"))
"""


def fresh(chk, item):
    """Read the files in an interpreter that has not made any of the objects, with another hash seed and working directory."""
    ix, bases = item
    lst = os.path.join(chk.scratch, "fresh-%d" % ix)
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    with open(lst, "w") as f:
        f.write("\n".join(bases))
    env = dict(os.environ, PYTHONHASHSEED=str(ix + 1))
    env["PYTHONPATH"] = os.pathsep.join(p for p in sys.path if p)
    p = subprocess.run([sys.executable, "-B", "-c", READER, lst, here, lst + ".out", "quick" if chk.quick else "thorough"], cwd="/", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not chk.expect(p.returncode == 0, "fresh/process", "the process that reads the files ended with %d: %s" % (p.returncode, p.stdout[-600:]), ix):
        return
    with open(lst + ".out") as f:
        for typ, name, history, err in json.load(f):
            chk.step()
            chk.expect(err is None, "fresh/" + name.split("-")[0], "read by another process: %s" % err, dict(object=name, history=history))
            chk.trace()
            chk.outcome("fresh " + typ)


def diff(a, b):
    for i, (x, y) in enumerate(itertools.zip_longest(a.split("\n"), b.split("\n"))):
        if x != y:
            return "line %d: %r / %r" % (i, x, y)
    return "none"


def first(a, b):
    for i, (x, y) in enumerate(itertools.zip_longest(a, b)):
        if x != y:
            return ("item %d: %r / %r" % (i, x, y))[:700]
    return "none"


def run(chk):
    its = items(chk.quick)
    chk.bounds["objects"] = "%d initial objects, histories up to 4 operations" % len(its)
    vals = [(k, i) for k, n in (("text", TEXTS), ("number", NUMBERS), ("collection", COLLECTIONS), ("date", DATES)) for i in range(len(n))]
    chk.parallel(values, vals)
    chk.bounds["values"] = "%d texts, numbers, collections and dates in every attribute of 9 classes, 5 file names" % len(vals)
    order = sorted(range(len(its)), key=lambda i: -its[i][4] * 10 - len(its[i][2]))
    chk.parallel(lambda c, i: one(c, its[i]), order)
    d = os.path.join(chk.scratch, "fresh")
    bases = sorted({os.path.join(d, f.rsplit(".", 1)[0]) for f in os.listdir(d)}) if os.path.isdir(d) else []
    chk.parallel(fresh, [(i, bases[i::8]) for i in range(8) if bases[i::8]])
    chk.bounds["fresh"] = "%d files read by other processes" % len(bases)
