"""B03: paths, lookups and ledger references of business trees under every edit history."""
from datetime import datetime
from auxi.modelling.business.models import TimeBasedModel
from auxi.modelling.business.structure import Component, Entity, Activity
from auxi.modelling.business.basic import BasicActivity, BasicLoanActivity
from auxi.modelling.financial.des import GeneralLedger
from mc import ledger as L
from mc.explore import after_rejection, bfs, structure

S = L.structure()
GL = GeneralLedger("Outer", S)
NAMES = ["A", "AB"]
GOOD = dict(basic=lambda n: BasicActivity(n, "Bank/Default", "Sales", amount=1.0),
            loan=lambda n: BasicLoanActivity(n, "Bank/Default", "Long Term Borrowing/Loan", "Expense/Wages", amount=9.0),
            plain=lambda n: Activity(n))
BADS = dict(dt=lambda n: BasicActivity(n, "Bank/Nope", "Sales", amount=1.0),
            cr=lambda n: BasicActivity(n, "Bank/Default", "Nope", amount=1.0),
            deep=lambda n: BasicActivity(n, "Bank/Default", "Sales/Delivery/Nope", amount=1.0),
            prefix=lambda n: BasicActivity(n, "Bank/Defaul", "Sales", amount=1.0),
            loan1=lambda n: BasicLoanActivity(n, "Nope", "Long Term Borrowing/Loan", "Expense/Wages", amount=9.0),
            loan2=lambda n: BasicLoanActivity(n, "Bank/Default", "Loan", "Expense/Wages", amount=9.0),
            loan3=lambda n: BasicLoanActivity(n, "Bank/Default", "Long Term Borrowing/Loan", "Expense/Nope", amount=9.0))


class N:
    def __init__(self, kind, name):
        self.kind, self.name, self.kids = kind, name, []

    def dump(self):
        return (self.kind, self.name, tuple(k.dump() for k in self.kids))


# names that differ only in blanks, case, separators or the way the same letter is written
AWKWARD = ["A", "a", "A ", " A", "A B", "A  B", "A.B", "A-B", "A_B", "AB", "1", "01", "1.0", "None", "A%s", "{0}", "\u00e9", "e\u0301", "\u00df", "ss", "A/B", "/", "A/", "B",
           "a very long name of a part of the works 1", "a very long name of a part of the works 2", "x" * 300 + "1", "x" * 300 + "2"]


class Tree:
    """root: 'model', 'entity' or 'component' (the last two without a parent)."""

    def __init__(self, root, maxnew, acts=("basic",), bads=("dt",), bigdepth=3):
        self.root, self.maxnew, self.acts, self.bads, self.maxdepth = root, maxnew, acts, bads, bigdepth

    probes = ("A", "AB", "X", "absent", "R", "B")

    def new(self):
        if self.root == "model":
            o = TimeBasedModel("R", start_datetime=datetime(2016, 1, 1))
        elif self.root == "entity":
            o = Entity("R", S)
        else:
            o = Component("R", GL)
        return o, dict(t=N(self.root, "R"), new=0, parent=None, gone=[])

    def opname(self, op):
        return op[0]

    def nodes(self, n, addr=()):
        yield addr, n
        for i, k in enumerate(n.kids):
            yield from self.nodes(k, addr + (i,))

    def ops(self, m):
        for addr, n in self.nodes(m["t"]):
            names = {}
            for k in n.kids:
                names.setdefault(k.kind, []).append(k.name)
            child = {"model": ["entity"], "entity": ["component"], "component": ["component", "activity"], "activity": []}[n.kind]
            for c in child:
                if m["new"] < self.maxnew and len(addr) < self.maxdepth:
                    for nm in NAMES:
                        if nm not in names.get(c, []):
                            if c == "activity":
                                for a in self.acts:
                                    yield ("add", list(addr), nm, a)
                            else:
                                yield ("create", list(addr), nm)
                if c == "activity":
                    for b in self.bads:
                        yield ("bad", list(addr), "A", b)
                else:
                    for nm in names.get(c, []) + ["absent"]:
                        yield ("remove", list(addr), nm)
            if addr:
                p = m["t"]
                for i in addr[:-1]:
                    p = p.kids[i]
                sib = [k.name for k in p.kids if k.kind == n.kind]
            else:
                sib = [n.name]
            for nm in ("A", "X"):
                if nm not in sib:
                    yield ("rename", list(addr), nm)
        if self.root != "model" and m["parent"] is None:
            for p in ("P", "P/Q"):
                yield ("move", [], p)

    def kids(self, o, kind):
        if kind == "model":
            return list(o.entities)
        if kind == "entity":
            return list(o.components)
        if kind == "component":
            return list(o.components) + list(o.activities)
        return []

    def get(self, o, m, addr):
        n = m["t"]
        for i in addr:
            ks = self.kids(o, n.kind)
            # the model keeps kids in creation order; the code keeps components before activities
            order = [k for k in n.kids if k.kind != "activity"] + [k for k in n.kids if k.kind == "activity"]
            o = ks[order.index(n.kids[i])]
            n = n.kids[i]
        return o, n

    def apply(self, chk, impl, m, op, hist):
        o, n = self.get(impl, m, op[1])
        if op[0] == "create":
            if n.kind == "model":
                r = o.create_entity(op[2], S, "desc " + op[2])
                kind = "entity"
                chk.expect(isinstance(r, Entity) and r is o.entities[-1], "create/returned", "create_entity did not return the new entity", hist)
            else:
                r = o.create_component(op[2], "desc " + op[2])
                kind = "component"
                chk.expect(isinstance(r, Component) and r is o.components[-1], "create/returned", "create_component did not return the new component", hist)
            chk.expect(r.description == "desc " + op[2], "create/description", lambda: "description %r" % r.description, hist)
            n.kids.append(N(kind, op[2]))
            m["new"] += 1
        elif op[0] == "add":
            a = GOOD[op[3]](op[2])
            o.add_activity(a)
            chk.expect(o.activities[-1] is a, "add/last", "activity not added", hist)
            n.kids.append(N("activity", op[2]))
            m["new"] += 1
        elif op[0] == "bad":
            a = BADS[op[3]](op[2])
            before, path = list(o.activities), a.path
            try:
                o.add_activity(a)
                chk.fail("bad/accepted", "activity with an unknown account (%s) was accepted" % op[3], hist)
            except ValueError:
                pass
            chk.expect(len(before) == len(o.activities) and all(x is y for x, y in zip(before, o.activities)),
                       "bad/changed", "rejected activity changed the component's activities", hist)
            chk.outcome("rejected")
        elif op[0] == "remove":
            gone = [x for x, k in zip(self.kids(o, n.kind), [k for k in n.kids if k.kind != "activity"] + [k for k in n.kids if k.kind == "activity"])
                    if k.kind != "activity" and k.name == op[2]]
            (o.remove_entity if n.kind == "model" else o.remove_component)(op[2])
            n.kids = [k for k in n.kids if k.kind == "activity" or k.name != op[2]]
            m["gone"] += gone
            chk.outcome("removed" if gone else "remove-absent")
        elif op[0] == "rename":
            o.name = op[2]
            n.name = op[2]
        elif op[0] == "move":
            impl.set_parent_path(op[2])
            m["parent"] = op[2]

    def canon(self, impl, m):
        return (m["t"].dump(), m["new"], m["parent"], len(m["gone"]) > 0, structure(impl))

    def check(self, chk, impl, m, hist):
        live = []
        self.walk(chk, impl, m["t"], None, None, hist, live, m)
        for g in m["gone"]:
            chk.expect(not any(x is g for x in live), "removed/reachable", "removed element still reachable", hist)

    def walk(self, chk, o, n, parentpath, gl, hist, live, m):
        live.append(o)
        chk.expect(o.name == n.name, "name", lambda: "name %r, expected %r" % (o.name, n.name), hist)
        if n.kind == "model":
            path = o.name
        else:
            if parentpath is None:
                want = (m["parent"] or "") + "/" + n.name
            else:
                want = parentpath + "/" + n.name
            chk.expect(o.path == want, "path/" + n.kind, lambda: "%s records path %r, expected %r" % (n.kind, o.path, want), hist)
            path = want
        if n.kind == "entity":
            gl = o.gl
            chk.expect(o.gl.structure is S, "gl-structure", "entity's ledger does not use the given structure", hist)
        if n.kind == "component":
            if gl is None:
                gl = GL
            chk.expect(o.gl is gl, "component-gl", "component does not use its entity's ledger", hist)
        order = [k for k in n.kids if k.kind != "activity"] + [k for k in n.kids if k.kind == "activity"]
        kids = self.kids(o, n.kind)
        if not chk.expect([x.name for x in kids] == [k.name for k in order], "children/" + n.kind,
                          lambda: "children %r, expected %r" % ([x.name for x in kids], [k.name for k in order]), hist):
            return
        ids = [id(x) for x in kids]
        chk.expect(len(set(ids)) == len(ids), "children/distinct", "the same object is listed twice", hist)
        look = dict(component=[], activity=[], entity=[])
        if n.kind in ("model", "entity"):
            look["entity" if n.kind == "model" else "component"] = [lambda q: o[q]]
        if n.kind == "component":
            look["component"] = [lambda q: o[q], lambda q: o.get_component(q)]
            look["activity"] = [lambda q: o(q), lambda q: o.get_activity(q)]
        for kind, fs in look.items():
            for f in fs:
                for q in self.probes:
                    want = [x for x, k in zip(kids, order) if k.kind == kind and k.name == q]
                    try:
                        got = f(q)
                    except Exception as e:
                        chk.expect(not want, "lookup/%s-raises" % kind, lambda: "lookup of live %s %r raised %r" % (kind, q, e), hist)
                        continue
                    if want:
                        chk.expect(got is want[0], "lookup/" + kind, lambda: "lookup of %s %r gave another object" % (kind, q), hist)
                    else:
                        chk.expect(got is None, "lookup/absent-" + kind, lambda: "lookup of absent %s %r gave %r" % (kind, q, getattr(got, "path", got)), hist)
        for x, k in zip(kids, order):
            self.walk(chk, x, k, path, gl, hist, live, m)


def independence(chk):
    """Two trees of the same names never share elements, ledgers or child lists."""
    for mk in (lambda: TimeBasedModel("M", start_datetime=datetime(2016, 1, 1)),):
        with chk.guard("independence", []):
            a, b = mk(), mk()
            ea, eb = a.create_entity("E", S), b.create_entity("E", S)
            ca = ea.create_component("C")
            ca.add_activity(GOOD["basic"]("x"))
            chk.step(4); chk.trace("independence")
            chk.expect(len(eb.components) == 0 and len(b.entities) == 1 and ea.gl is not eb.gl
                       and ea.gl.transactions is not eb.gl.transactions, "independence", "two models share state", "independence")
            e2 = a.create_entity("E2", S)
            chk.expect(e2.gl is not ea.gl and len(e2.components) == 0, "independence/entities", "two entities share state", "independence")
            c2 = ea.create_component("C2")
            chk.expect(len(c2.activities) == 0 and len(c2.components) == 0, "independence/components", "two components share state", "independence")
    # order of children is creation order and activities of every kind keep their own accounts
    with chk.guard("referenced", []):
        for k, f in GOOD.items():
            a = f("n")
            r = a.get_referenced_accounts()
            want = dict(basic={"Bank/Default", "Sales"}, loan={"Bank/Default", "Long Term Borrowing/Loan", "Expense/Wages"}, plain=set())[k]
            chk.step()
            chk.expect(set(r) == want, "referenced/" + k, lambda: "referenced accounts %r" % (r,), k)


def awkward(chk, item):
    """Every ordered pair of awkward names, given to siblings, to parent and child, and by renaming."""
    a, b = item
    for root in ("model", "entity", "component"):
        top, hs = "create", []
        # siblings with both names, a parent and a child of the same name, then a renamed to something else and back to b
        h = [(top, [], a), (top, [], b), (top, [0], b), (top, [0], a)]
        if root != "entity":
            h += [(top, [0, 0], a)] if root == "component" else [(top, [0, 0], b), ("add", [0, 0, 0], a, "basic"), ("add", [0, 0, 0], b, "loan")]
        else:
            h += [("add", [0, 0], a, "basic"), ("add", [0, 0], b, "loan"), (top, [0, 0], a)]
        hs.append(h + [("remove", [], a), ("rename", [0], a)])
        hs.append(h + [("remove", [], b), ("rename", [0], b)])
        hs.append([(top, [], a), (top, [0], a)] + ([(top, [0, 0], a), ("add", [0, 0, 0], a, "basic"), ("rename", [0, 0, 0, 0], b), ("rename", [0, 0, 0], b), ("rename", [0, 0], b), ("rename", [0], b)] if root == "model" else
                  [("add", [0, 0], a, "basic"), ("rename", [0, 0, 0], b), ("rename", [0, 0], b), ("rename", [0], b)]) + [("rename", [], a), ("rename", [], b)])
        for h in hs:
            sys_ = Tree(root, 9)
            sys_.probes = (a, b, "absent")
            impl, m = sys_.new()
            done = []
            for op in h:
                done.append(op)
                with chk.guard("names/" + op[0], done):
                    sys_.apply(chk, impl, m, op, done)
                    sys_.check(chk, impl, m, done)
                chk.step()
            chk.trace(done)
            chk.state((root, sys_.canon(impl, m)))


def tower(chk, item):
    """A chain of components of some depth, or many side by side: every rename and every removal."""
    root, depth, width, ix = item
    sys_ = Tree(root, 99)
    sys_.probes = tuple("L%d" % i for i in range(max(depth, width))) + ("new", "absent")
    top = []
    base = []
    if root == "model":
        base, top = [("create", [], "E")], [0]
    if depth:
        addr = [top + [0] * (i + 1) for i in range(depth)]
        base += [("create", addr[i - 1] if i else top, "L%d" % i) for i in range(depth)] + [("add", addr[-1], "x", "basic"), ("add", addr[depth // 2], "y", "loan")]
        ends = [("rename", addr[ix], "new"), ("remove", addr[ix - 1] if ix else top, "L%d" % ix)] + ([("rename", top, "top")] if not ix else [])
    else:
        base += [("create", top, "L%d" % i) for i in range(width)] + [("add", top + [width - 1], "x", "basic"), ("add", top + [0], "y", "loan")]
        ends = [("rename", top + [ix], "new"), ("remove", top, "L%d" % ix)]
    for end in ends:
        impl, m = sys_.new()
        done = []
        for op in base + [end, ("create", top, "after")]:
            done.append(op)
            with chk.guard("tower/" + op[0], done):
                sys_.apply(chk, impl, m, op, done)
                chk.step()
                if op is end or op[-1] == "after":
                    sys_.check(chk, impl, m, done)
        chk.trace(done)
        chk.state((item, end[0], sys_.canon(impl, m)))


def run(chk):
    q = chk.quick
    depths, widths = ((2, 4, 5, 7, 10, 14), (9, 12, 30)) if q else (range(1, 20), (5, 9, 10, 11, 12, 30, 60))
    chk.parallel(tower, [(k, d, 0, i) for k in ("model", "entity", "component") for d in depths for i in range(d)] +
                 [(k, 0, w, i) for k in ("model", "entity", "component") for w in widths for i in range(0, w, 1 if w < 13 else 7)])
    chk.bounds["towers"] = "chains of %r nested components and %r side by side, every rename and removal" % (tuple(depths), tuple(widths))
    with chk.guard("names", []):
        pairs = [(a, b) for a in AWKWARD for b in AWKWARD if a != b]
        chk.parallel(awkward, pairs)
        chk.bounds["names"] = "every ordered pair of %d names that look alike, for siblings, parent and child and renamings" % len(AWKWARD)
    independence(chk)
    for k in ("model", "entity", "component"):
        after_rejection(chk, Tree(k, 3, bigdepth=3), "rejected-" + k, lambda op: 0)
    bfs(chk, Tree("model", 4 if q else 5, bigdepth=4), 6 if q else 8, "model", max_states=40000 if q else 250000)
    bfs(chk, Tree("entity", 4 if q else 5, bigdepth=4), 6 if q else 7, "entity", max_states=40000 if q else 150000)
    bfs(chk, Tree("component", 3 if q else 4, tuple(GOOD), tuple(BADS), bigdepth=3), 5 if q else 6, "component", max_states=40000 if q else 150000)
