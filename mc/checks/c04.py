"""C04: objects hold what they are given.

Every constructor with every subset of its optional arguments, positionally and by name, over an
alphabet of values; then every history of attribute settings on one of several live objects, with
all objects compared with plain records of what they were given after every step.
"""
import itertools
from datetime import datetime, date
from auxi.core.objects import NamedObject
from auxi.core.time import Clock, TimePeriod
from auxi.modelling.core import Project, Variable, VariableGroup
from auxi.modelling.process.core import Model, SteadyStateModel, DynamicModel
from auxi.modelling.financial.des import (AccountType, GeneralLedgerAccount, Transaction, TransactionTemplate,
                                          GeneralLedgerStructure, GeneralLedger)
from auxi.modelling.business.structure import Activity, Component, Entity
from auxi.modelling.business.models import TimeBasedModel
from auxi.modelling.business.basic import BasicActivity, BasicLoanActivity
from mc import core

NAMES = ("plain", "Ünïcode / \"q\"", " padded ", "two\nlines", "007", "n" * 300, "None", "")
TEXTS = (None, "some text", "  padded  ", "two\nlines\n", "1e3", "w" * 3000, "None", "")
MIN, MAX = datetime.min, datetime.max
W1, W2 = datetime(2016, 2, 29, 12, 30, 1, 5), datetime(2019, 7, 1)


class Sub(SteadyStateModel):
    class Parameters(object):
        def __init__(self):
            self.rate = 2.5


STRUCT = GeneralLedgerStructure("S")
GL = GeneralLedger("L", STRUCT)

# class: (required [(name, values)], optional [(name, default, values)] in positional order, readers)
# a reader maps the record of arguments to what must be observed: {label: (function, expected)}
IDENT = {}


def simple(*names):
    return {n: (lambda o, n=n: getattr(o, n)) for n in names}


CLASSES = {
    "NamedObject": (NamedObject, [("name", NAMES)], [("description", None, TEXTS)], IDENT, ()),
    "Project": (Project, [("name", NAMES)], [("description", None, TEXTS)], IDENT, ()),
    "Variable": (Variable, [("name", NAMES), ("value", (1.5, 0, None, "text", "", -1e-12, float("inf"), [1, 2], [], {}, True, False))],
                 [("units", None, ("kg", "")), ("category", None, ("c", "")), ("description", None, TEXTS)], {}, ("call",)),
    "VariableGroup": (VariableGroup, [("name", NAMES), ("value", (1.5, 0, None, {}, [], (), [1, 2]))],
                      [("units", None, ("kg", "")), ("category", None, ("c", "")), ("description", None, TEXTS)], {}, ("call",)),
    "Model": (Model, [("name", NAMES)], [("description", None, TEXTS)], {}, ("holders",)),
    "SteadyStateModel": (SteadyStateModel, [("name", NAMES)], [("description", None, TEXTS)], {}, ("holders",)),
    "DynamicModel": (DynamicModel, [("name", NAMES)], [("description", None, TEXTS)], {}, ("holders",)),
    "SubclassedModel": (Sub, [("name", NAMES)], [("description", None, TEXTS)], {}, ("holders", "own")),
    "Clock": (Clock, [("name", NAMES)], [("description", None, TEXTS), ("start_datetime", MIN, (W1, W2)), ("timestep_period_duration", TimePeriod.month, tuple(TimePeriod)),
                                         ("timestep_period_count", 1, (2, 0, 1000, 12))], {}, ("ticks",)),
    "GeneralLedgerAccount": (GeneralLedgerAccount, [("name", NAMES)], [("description", None, TEXTS), ("number", None, ("010", "", "A1")),
                                                                       ("account_type", AccountType.revenue, tuple(AccountType))], {}, ("path", "noaccounts")),
    "Transaction": (Transaction, [("name", NAMES)], [("description", None, TEXTS), ("tx_date", MIN.date(), (W1, date(2016, 2, 29))), ("dt_account", None, ("Bank/Default", "x")),
                                                     ("cr_account", None, ("Sales", "y")), ("source", None, ("/a/b", "")), ("amount", 0.0, (1.25, 0.005, 1e-9, 1234567.891234, -3, 1e300)),
                                                     ("is_closing_dt_account", False, (True,)), ("is_closing_cr_account", False, (True,))], {}, ()),
    "TransactionTemplate": (TransactionTemplate, [("name", NAMES), ("dt_account", ("Bank/Default", "x")), ("cr_account", ("Sales", "y"))], [("description", None, TEXTS)], {}, ()),
    "GeneralLedgerStructure": (GeneralLedgerStructure, [("name", NAMES)], [("description", None, TEXTS)], {}, ()),
    "GeneralLedger": (GeneralLedger, [("name", NAMES), ("structure", (STRUCT,))], [("description", None, TEXTS)], {}, ("notransactions",)),
    "Component": (Component, [("name", NAMES), ("gl", (GL,))], [("description", None, TEXTS)], {}, ("apath", "nocomponents", "noactivities")),
    "Entity": (Entity, [("name", NAMES), ("gl_structure", (STRUCT,))], [("description", None, TEXTS)], {"gl_structure": lambda o: o.gl.structure}, ("apath", "nocomponents", "gl")),
    "Activity": (Activity, [("name", NAMES)], [("start", MIN, (W1, "2016-02-29")), ("end", MAX, (W2, "2020-12-31")), ("interval", 1, (2, 12)), ("description", None, TEXTS)],
                 {"start": lambda o: o.start_datetime, "end": lambda o: o.end_datetime}, ("apath",)),
    "BasicActivity": (BasicActivity, [("name", NAMES), ("dt_account", ("Bank/Default", "x")), ("cr_account", ("Sales", "y"))],
                      [("amount", 0, (1.25, 0.005, 1e-9, 1234567.891234, 1e9)), ("start", MIN, (W1, "2016-02-29")), ("end", MAX, (W2, "2020-12-31")), ("interval", 1, (2, 12)), ("description", None, TEXTS)],
                      {"start": lambda o: o.start_datetime, "end": lambda o: o.end_datetime}, ("apath", "accounts2")),
    "BasicLoanActivity": (BasicLoanActivity, [("name", NAMES), ("bank_account", ("Bank/Default", "x")), ("loan_account", ("Long Term Borrowing/Loan", "y")),
                                              ("interest_account", ("Expense/Wages", "z"))],
                          [("amount", 0, (100.0, 0.005, 1234567.891234, 1e9)), ("interest_rate", 0.0, (0.15, 0.0777123456, 1e-9)), ("start", MIN, (W1, "2016-02-29")), ("duration", 60, (12,)), ("interval", 1, (2,)), ("description", None, TEXTS)],
                          {"start": lambda o: o.start_datetime}, ("apath", "accounts3")),
    "TimeBasedModel": (TimeBasedModel, [("name", NAMES)], [("description", None, TEXTS), ("start_datetime", core, (W1, "2016-02-29", date(2016, 2, 29))),
                                                           ("period_duration", TimePeriod.year, tuple(TimePeriod)), ("period_count", 1, (0, 12))],
                       {"start_datetime": lambda o: o.clock.start_datetime, "period_duration": lambda o: o.clock.timestep_period_duration}, ("noentities",)),
}


def norm(v):
    """A date given as text or as a date is midnight of that day."""
    if isinstance(v, str) and len(v) == 10 and v[4] == "-":
        return datetime.strptime(v, "%Y-%m-%d")
    if type(v) is date:
        return datetime(v.year, v.month, v.day)
    return v


DATES = ("start", "end", "start_datetime")


def compare(chk, cls, o, rec, key, case):
    spec = CLASSES[cls]
    readers = spec[3]
    for n, v in rec.items():
        if v is core:          # no documented default
            continue
        got = readers.get(n, lambda o: getattr(o, n))(o)
        want = norm(v) if n in DATES else v
        same = got is want if not isinstance(want, (str, int, float, list, datetime, date, type(None))) else (got == want and type(got) is type(want))
        chk.expect(same, key + "/" + n, lambda: "%s is %r, given %r" % (n, got, want), case)
    for x in spec[4]:
        if x == "call":
            chk.expect(o() == rec["value"] and o() == rec["value"], key + "/call", lambda: "calling gives %r" % (o(),), case)
        elif x == "holders":
            h = (o.parameters, o.input_variables, o.output_variables)
            chk.expect(len({id(y) for y in h}) == 3, key + "/holders", "parameters, inputs and outputs are one object", case)
            chk.expect((type(o.parameters), type(o.input_variables), type(o.output_variables)) ==
                       (type(o).Parameters, type(o).InputVariables, type(o).OutputVariables), key + "/holder-types", lambda: repr(h), case)
        elif x == "own":
            chk.expect(o.parameters.rate == 2.5, key + "/own", "own parameters lost", case)
        elif x == "ticks":
            chk.expect(o.timestep_ix == 0 and o.get_datetime() == rec["start_datetime"], key + "/ticks", "a new clock does not stand at its start", case)
        elif x == "path":
            chk.expect(o.path == rec["name"], key + "/path", lambda: "path %r" % o.path, case)
        elif x == "apath":
            chk.expect(o.path in (rec["name"], "/" + rec["name"]), key + "/path", lambda: "path %r" % o.path, case)
        elif x == "accounts2":
            chk.expect(o.get_referenced_accounts() == [rec["dt_account"], rec["cr_account"]], key + "/accounts", "referenced accounts", case)
        elif x == "accounts3":
            chk.expect(o.get_referenced_accounts() == [rec["bank_account"], rec["loan_account"], rec["interest_account"]], key + "/accounts", "referenced accounts", case)
        elif x == "gl":
            chk.expect(o.gl.transactions == [], key + "/gl", "a new entity has transactions", case)
        elif x.startswith("no"):
            chk.expect(list(getattr(o, x[2:])) == [], key + "/" + x, lambda: "a new object has %s %r" % (x[2:], getattr(o, x[2:])), case)


def build(cls, rec, given, npos):
    """Constructs with the first ``npos`` arguments given by position, the others by name."""
    c, req, opt = CLASSES[cls][:3]
    names = [n for n, *_ in req] + [n for n, *_ in opt]
    pos, kw, gap = [], {}, False
    for i, n in enumerate(names):
        if n not in given:
            gap = True
            continue
        if i < npos and not gap:
            pos.append(rec[n])
        else:
            kw[n] = rec[n]
    return c(*pos, **kw)


def construct(chk, cls):
    c, req, opt, _, _ = CLASSES[cls]
    nreq = len(req)
    reqsets = list(itertools.product(*[v for _, v in req]))
    big = len(opt) > 5
    for k in range(len(opt) + 1):
        if big and chk.quick and 2 < k < len(opt) - 1:
            continue
        for sub in itertools.combinations(opt, k):
            deep = len(sub) <= 2 or not chk.quick and len(sub) <= 3
            vals = itertools.product(*[(v if deep else v[-1:]) for _, _, v in sub])
            for vs in vals:
                for rs in (reqsets if k == 0 else [reqsets[0], reqsets[-1]]):
                    rec = {n: d for n, d, _ in opt}
                    rec.update(zip([n for n, _ in req], rs))
                    rec.update(zip([n for n, _, _ in sub], vs))
                    given = {n for n, _ in req} | {n for n, _, _ in sub}
                    for npos in (0, nreq, nreq + len(opt)):
                        case = dict(cls=cls, given={n: repr(rec[n]) for n in given}, positional=npos)
                        with chk.guard(cls, case):
                            chk.step()
                            a = build(cls, rec, given, npos)
                            compare(chk, cls, a, rec, cls, case)
                            chk.state((cls, repr(sorted((n, repr(v)) for n, v in rec.items() if v is not core)), npos))
                            chk.trace(case)
    chk.outcome(cls)


SETTABLE = {"start": "start_datetime", "end": "end_datetime"}
FIXED = {"Entity": ("gl_structure",), "TimeBasedModel": ("start_datetime", "period_duration"), "Activity": (), "Component": ("gl",)}


def history(chk, cls):
    """Histories of attribute settings on three live objects of the class."""
    c, req, opt, readers, _ = CLASSES[cls]
    attrs = [(n, v) for n, v in req] + [(n, v) for n, _, v in opt]
    attrs = [(n, v) for n, v in attrs if n not in FIXED.get(cls, ())]
    names = [n for n, _ in req] + [n for n, _, _ in opt]
    first = {n: (v[0] if isinstance(v, tuple) else v) for n, v in [(n, v) for n, v in req]}
    base = [dict({n: d for n, d, _ in opt}, **first), dict(first, **{n: v[-1] for n, _, v in opt}), dict({n: d for n, d, _ in opt}, **{n: v[-1] for n, v in req})]
    givens = [set(first), set(names), set(first)]
    ops = [(i, n, v) for i in range(3) for n, vs in attrs for v in [norm(x) if n in DATES else x for x in (vs[0], vs[-1])]]
    ops = [o for k, o in enumerate(ops) if o not in ops[:k]]
    depth = 2 if chk.quick else 3
    for h in itertools.product(range(len(ops)), repeat=depth):
        case = dict(cls=cls, history=[(ops[k][0], ops[k][1], repr(ops[k][2])) for k in h])
        with chk.guard(cls + ":history", case):
            objs = [build(cls, r, g, 0) for r, g in zip(base, givens)]
            recs = [dict(r) for r in base]
            for k in h:
                i, n, v = ops[k]
                setattr(objs[i], SETTABLE.get(n, n), v)
                recs[i][n] = v
                chk.step()
            for o, r in zip(objs, recs):
                compare(chk, cls, o, r, cls + ":history", case)
            chk.trace(case)
    chk.outcome(cls + " histories")


ODD_TEXT = ("a", " padded ", "with/slash", "tab\tnew\nline", "None", "0", "1e3", "Ω", "x" * 300, "true", "[1]", "CamelCase", "UPPER", "lower", "a.b", "-", "%s", "{}")
ODD_NUMBER = (0, 1, -1, 7, 0.5, -0.25, 1 / 3, 2 / 3, 1e-3, 2.5e-9, 1e-15, 5e-324, 0.005, 0.015, 2.675, 99.999, 999999.99, 123456789.123456789, 1e9 + 1 / 3, 2 ** 53, 10 ** 18, 1e300,
              -1 / 3, -2.5e-9, -1e12)
ODD_COUNT = (1, 2, 3, 7, 11, 12, 13, 24, 31, 52, 60, 61, 100, 365, 366, 1000, 10 ** 6)
ODD_DATE = (datetime(1, 1, 2), datetime(1899, 12, 31, 23, 59, 59, 999999), datetime(1970, 1, 1), datetime(2000, 2, 29, 0, 0, 0, 1), datetime(2016, 2, 29), datetime(2016, 12, 31, 23, 59, 59),
            datetime(2038, 1, 19, 3, 14, 8), datetime(2100, 3, 1), datetime(9990, 12, 31, 23, 59, 59, 999999))
ODD_RATE = (1e-3, 0.005, 0.01, 1 / 3, 0.0725, 0.105, 0.12345678901, 0.999, 1.0, 2.5)
COUNTS = ("interval", "duration", "period_count", "timestep_period_count")


def odd(cls, n, sample):
    if n in DATES:
        return ODD_DATE
    if n == "tx_date":
        return ODD_DATE + tuple(d.date() for d in ODD_DATE)
    if n in COUNTS:
        return ODD_COUNT
    if n == "interest_rate":
        return ODD_RATE
    if n == "value":
        return ODD_TEXT + ODD_NUMBER + ODD_DATE
    vs = [v for v in sample if v is not None]
    if vs and all(isinstance(v, str) for v in vs):
        return ODD_TEXT
    if vs and all(type(v) in (int, float) for v in vs):
        return ODD_NUMBER
    return ()


def values(chk, cls):
    """Every argument with every value of a long list of awkward ones, given to the constructor and set afterwards."""
    c, req, opt, readers, _ = CLASSES[cls]
    fixed = FIXED.get(cls, ())
    base = {n: d for n, d, _ in opt}
    base.update({n: v[0] for n, v in req})
    for n, sample in [(n, v) for n, v in req] + [(n, v) for n, _, v in opt]:
        for v in odd(cls, n, sample):
            if cls == "BasicLoanActivity" and n == "start" and v > datetime(9900, 1, 1):
                continue           # its end lies beyond the last year of the calendar
            for how in ("given", "set", "reset"):
                if how != "given" and n in fixed:
                    continue
                case = dict(cls=cls, argument=n, value=repr(v), how=how)
                with chk.guard(cls + ":values", case):
                    rec = dict(base)
                    chk.step()
                    if how == "given":
                        rec[n] = v
                        o = build(cls, rec, {m for m, _ in req} | {n}, 0)
                    else:
                        given = {m for m, _ in req} | ({n} if how == "reset" else set())
                        if how == "reset":
                            rec[n] = sample[-1]
                        o = build(cls, rec, given, 0)
                        setattr(o, SETTABLE.get(n, n), norm(v) if n in DATES else v)
                        rec[n] = v
                    compare(chk, cls, o, rec, cls + ":values", case)
                    chk.state((cls, n, repr(v)))
                    chk.trace(case)
    chk.outcome(cls + " values")


CONTAINERS = ([], [2, 1], [3, "b", None, 1.5], ["z"] * 40, (2, 1), {}, {"b": 2, "a": 1}, {"x": [2, 1], "a": {"n": ()}}, {3, 1}, [[2, 1], [0]], b"raw", 1 + 2j)


def containers(chk):
    """Variables holding collections: these are given back as they were, and are never changed."""
    import copy
    for cls, v, w in itertools.product((Variable, VariableGroup), CONTAINERS, CONTAINERS):
        case = dict(cls=cls.__name__, value=repr(v), other=repr(w))
        with chk.guard("containers", case):
            given, later = copy.deepcopy(v), copy.deepcopy(w)
            a, b = cls("a", given), cls("b", later)
            c = cls("c", 0.0)
            chk.step(5)
            c.value = given
            for o, want in ((a, v), (b, w), (c, v), (a, v)):
                got = o()
                chk.expect(type(got) is type(want) and repr(got) == repr(want) and repr(o.value) == repr(want), "containers/value", lambda: "%r, given %r" % (got, want), case)
            b.value = c.value
            chk.expect(repr(b()) == repr(v) and repr(a()) == repr(v), "containers/set", lambda: "%r, given %r" % (b(), v), case)
            chk.expect(repr(given) == repr(v) and repr(later) == repr(w), "containers/input", lambda: "%r became %r" % (v, given), case)
            chk.state(("containers", cls.__name__, repr(v), repr(w)))
            chk.trace(case)


def holders(chk):
    """What is put in one process model's holders shows in no other model."""
    kinds = (Model, SteadyStateModel, DynamicModel, Sub)
    parts = ("parameters", "input_variables", "output_variables")
    for a, b, p in itertools.product(kinds, kinds, parts):
        case = dict(first=a.__name__, second=b.__name__, holder=p)
        with chk.guard("holders", case):
            x, y = a("x"), b("y")
            setattr(getattr(x, p), "k", 1.5)
            chk.step()
            z = b("z")
            chk.expect(getattr(x, p).k == 1.5, "holders/lost", "the value set is lost", case)
            for o, w in ((y, "second"), (z, "later")):
                for q in parts:
                    chk.expect(not hasattr(getattr(o, q), "k"), "holders/shared", "%s shows in %s of the %s model" % (p, q, w), case)
            for q in parts:
                chk.expect(q == p or not hasattr(getattr(x, q), "k"), "holders/other", "%s shows in %s" % (p, q), case)
            chk.trace(case)


def factories(chk):
    """The creating methods pass on every argument, create a new child each time, and return it."""
    opts = [("number", None, ("010", "")), ("description", None, TEXTS[1:])]
    for k in range(3):
        for sub in itertools.combinations(opts, k):
            for vs in itertools.product(*[v for _, _, v in sub]):
                kw = dict(zip([n for n, _, _ in sub], vs))
                for t in AccountType:
                    for pos in (False, True):
                        case = dict(create="account", given=kw, type=t.name, positional=pos)
                        with chk.guard("create-account", case):
                            p = GeneralLedgerAccount("P", "d", "1", t)
                            full = dict(dict(number=None, description=None), **kw)
                            a = p.create_account("A", full["number"], full["description"]) if pos else p.create_account("A", **kw)
                            chk.step()
                            chk.expect((a.name, a.number, a.description, a.account_type, a.path) == ("A", full["number"], full["description"], t, "P/A"),
                                       "create-account/value", lambda: repr((a.name, a.number, a.description, a.account_type, a.path)), case)
                            chk.expect(len(p.accounts) == 1 and p.accounts[0] is a and p["A"] is a, "create-account/child", "not the child", case)
                            chk.trace(case)
    topts = [(n, v[-1]) for n, _, v in CLASSES["Transaction"][2][:6]]
    for k in range(len(topts) + 1):
        for sub in itertools.combinations(topts, k):
            for pos in (False, True):
                case = dict(create="transaction", given=[n for n, _ in sub], positional=pos)
                with chk.guard("create-transaction", case):
                    gl = GeneralLedger("G", STRUCT)
                    other = GeneralLedger("H", STRUCT)
                    rec = {n: d for n, d, _ in CLASSES["Transaction"][2]}
                    rec.update(sub)
                    rec["name"] = "t"
                    t = gl.create_transaction("t", *[rec[n] for n, _ in topts]) if pos else gl.create_transaction("t", **dict(sub))
                    u = gl.create_transaction("t", **dict(sub))
                    chk.step(2)
                    compare(chk, "Transaction", t, rec, "create-transaction", case)
                    compare(chk, "Transaction", u, rec, "create-transaction", case)
                    chk.expect(len(gl.transactions) == 2 and gl.transactions[0] is t and gl.transactions[1] is u and t is not u and other.transactions == [],
                               "create-transaction/ledger", "ledger %r" % gl.transactions, case)
                    chk.trace(case)
    for d in (core,) + TEXTS:
        kw = {} if d is core else dict(description=d)
        want = None if d is core else d
        case = dict(create="business", description=repr(want))
        with chk.guard("create-business", case):
            m = TimeBasedModel("M", start_datetime=W1)
            e = m.create_entity("E", STRUCT, **kw)
            c = e.create_component("C", **kw)
            s = c.create_component("S", **kw)
            chk.step(3)
            for o, n, path in ((e, "E", "M/E"), (c, "C", "M/E/C"), (s, "S", "M/E/C/S")):
                chk.expect((o.name, o.description, o.path) == (n, want, path), "create-business/value", lambda: repr((o.name, o.description, o.path)), case)
            chk.expect(e.gl.structure is STRUCT and c.gl is e.gl and s.gl is e.gl, "create-business/ledger", "not the entity's ledger", case)
            chk.expect(list(m.entities) == [e] and list(e.components) == [c] and list(c.components) == [s], "create-business/child", "not the child", case)
            chk.expect(m["E"] is e and e["C"] is c and c["S"] is s, "create-business/lookup", "not the child", case)
            chk.trace(case)


def run(chk):
    chk.parallel(construct, sorted(CLASSES))
    chk.parallel(history, sorted(CLASSES))
    chk.parallel(values, sorted(CLASSES))
    containers(chk)
    holders(chk)
    factories(chk)
    chk.bounds = dict(classes=len(CLASSES), arguments="every subset of the optional arguments (classes with more than 5: up to two and all but one in the quick tier), by position and by name",
                      values="every argument with up to %d awkward values, given, set and set again" % len(ODD_TEXT + ODD_NUMBER + ODD_DATE),
                      histories="every %s attribute settings on three live objects of each class" % ("two" if chk.quick else "three"))
