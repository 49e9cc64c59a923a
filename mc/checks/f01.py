"""F01: account-tree consistency. Alphabet: create/rename/remove on two roots of the default chart
of accounts (and on a standalone account), names A/B/C, nesting <= 3. Oracle: a plain nested list."""
import csv, itertools, os
from auxi.modelling.financial.des import GeneralLedgerStructure, GeneralLedgerAccount, AccountType
from auxi.core.reporting import ReportFormat
from mc import core
from mc.explore import after_rejection, bfs, structure

NAMES = ["A", "B"]
# names that differ only in blanks, case, separators or the way the same letter is written
AWKWARD = ["A", "a", "A ", " A", "A B", "A  B", "A.B", "A-B", "A_B", "AB", "1", "01", "1.0", "None", "A%s", "{0}", "\u00e9", "e\u0301", "\u00df", "ss", "Sales", "Bank"]
TYPES = {"I05": "revenue", "I10": "revenue", "I15": "expense", "I20": "revenue", "I25": "expense",
         "I30": "expense", "I35": "expense", "B10": "asset", "B15": "equity", "B20": "liability",
         "B25": "liability", "B30": "liability", "B35": "asset", "B40": "asset", "B45": "asset",
         "B50": "asset", "B55": "asset", "B60": "asset", "B65": "asset", "B70": "liability",
         "B75": "liability", "B80": "liability"}


class Node:
    def __init__(self, name, number, atype, desc=None):
        self.name, self.number, self.atype, self.desc = name, number, atype, desc
        self.kids = []

    def walk(self, prefix):
        p = prefix + "/" + self.name if prefix else self.name
        yield p, self
        for k in self.kids:
            for x in k.walk(p):
                yield x

    def dump(self):
        return (self.name, self.number, self.atype, self.desc, tuple(k.dump() for k in self.kids))


def mirror(acc):
    n = Node(acc.name, acc.number, acc.account_type.name, acc.description)
    n.kids = [mirror(a) for a in acc.accounts]
    return n


class Gls:
    """Edits below chosen roots of the chart of accounts."""
    names = NAMES

    def __init__(self, roots, maxnew, depth3):
        self.roots, self.maxnew, self.depth3 = roots, maxnew, depth3

    def opname(self, op): return op[0]

    def new(self):
        g = GeneralLedgerStructure("G")
        m = [mirror(a) for a in g.accounts]
        idx = {n.name: i for i, n in enumerate(m)}
        return g, dict(tree=m, new=0, roots=[idx[r] for r in self.roots])

    @staticmethod
    def _report(chk, impl):
        base = os.path.join(chk.scratch, "gls-%d" % os.getpid())
        impl.report(ReportFormat.csv, base)
        with open(base + ".csv", newline="") as f:
            return [tuple(r) for r in csv.reader(f)][1:]

    # a node is addressed by the child-index path, independent of any lookup under test
    def _nodes(self, model):
        for r in model["roots"]:
            stack = [((r,), model["tree"][r], 1)]
            while stack:
                addr, n, d = stack.pop(0)
                yield addr, n, d
                for i, k in enumerate(n.kids):
                    stack.append((addr + (i,), k, d + 1))

    def ops(self, model):
        for addr, n, d in self._nodes(model):
            names = [k.name for k in n.kids]
            if model["new"] < self.maxnew and d <= (3 if self.depth3 else 2):
                for nm in NAMES:
                    if nm not in names:
                        yield ("create", list(addr), nm)
            for k in names:
                yield ("remove", list(addr), k)
            yield ("remove", list(addr), "absent")
            if d > 1:
                par = model["tree"][addr[0]]
                for i in addr[1:-1]:
                    par = par.kids[i]
                sib = [k.name for k in par.kids]
            else:
                sib = [k.name for k in model["tree"]]
            for nm in ["A", "C"]:
                if nm not in sib:
                    yield ("rename", list(addr), nm)

    def _get(self, impl, model, addr):
        a = impl.accounts[addr[0]]; n = model["tree"][addr[0]]
        for i in addr[1:]:
            a = a.accounts[i]; n = n.kids[i]
        return a, n

    def apply(self, chk, impl, model, op, hist):
        a, n = self._get(impl, model, op[1])
        if op[0] == "create":
            num = "%03d" % (10 * (len(n.kids) + 1))
            desc = "d" + op[2] if op[2] == "A" else None
            r = a.create_account(op[2], num, desc)
            n.kids.append(Node(op[2], num, n.atype, desc))
            model["new"] += 1
            chk.expect(r is not None and r.name == op[2] and r.number == num and r.description == desc
                       and any(r is x for x in a.accounts),
                       "create/returned", "create_account did not return the created child", hist)
        elif op[0] == "remove":
            a.remove_account(op[2])
            n.kids = [k for k in n.kids if k.name != op[2]]
        elif op[0] == "rename":
            a.name = op[2]
            n.name = op[2]

    def canon(self, impl, model):
        return (tuple(n.dump() for n in model["tree"]), model["new"], structure(impl))

    def check(self, chk, impl, model, hist):
        want = []
        for n in model["tree"]:
            want += list(n.walk(""))
        paths = [p for p, _ in want]
        # real tree, walked structurally (identity)
        real = []
        def walk(a, p):
            p = p + "/" + a.name if p else a.name
            real.append((p, a))
            for k in a.accounts:
                walk(k, p)
        for a in impl.accounts:
            walk(a, "")
        if not chk.expect([p for p, _ in real] == paths, "tree/shape",
                          lambda: "accounts present %r, expected %r" % ([p for p, _ in real][:60], paths[:60]), hist):
            return
        interesting = set(i for i, (p, _) in enumerate(want)
                          if p.split("/")[0] in [model["tree"][r].name for r in model["roots"]])
        for i, ((p, a), (_, n)) in enumerate(zip(real, want)):
            chk.expect(a.path == p, "path/recorded", lambda: "account at %s records path %r" % (p, a.path), hist)
            chk.expect(a.account_type.name == n.atype, "type", lambda: "%s has type %s, expected %s" % (p, a.account_type, n.atype), hist)
            chk.expect(a.number == n.number and a.description == n.desc, "attributes",
                       lambda: "%s: number/description %r" % (p, (a.number, a.description)), hist)
            got = impl.get_account(p)
            chk.expect(got is a, "lookup/present", lambda: "lookup of %r gave %r" % (p, getattr(got, "path", got)), hist)
            if i in interesting or not hist:
                d = impl.get_account_descendants(a)
                wantd = [x for q, x in real if q.startswith(p + "/")]
                chk.expect(len(d) == len(wantd) and all(any(x is y for y in wantd) for x in d),
                           "descendants", lambda: "descendants of %s are %r" % (p, [x.path for x in d]), hist)
        given = paths[::-1] + paths[:1]
        impl.validate_account_names(given)
        chk.expect(given == paths[::-1] + paths[:1], "validate/input", lambda: "the names passed became %r" % given, hist)
        # one absent name among all the present ones, at the front, in the middle and at the end
        for i in {0, len(paths) // 2, len(paths)}:
            given = paths[:i] + ["nope"] + paths[i:]
            try:
                impl.validate_account_names(given)
                chk.fail("validate/accepts-absent", "validation accepted an absent account at position %d of %d" % (i, len(given)), hist)
            except ValueError:
                pass
        # every probe path over the alphabet
        rootnames = [model["tree"][r].name for r in model["roots"]]
        segs = self.names + ["C", "nope", "Default"]
        probes = list(rootnames) + ["nope", "A", "C"] + self.roots
        for r in rootnames + self.roots + ["nope", "A"]:
            for s in segs:
                probes.append(r + "/" + s)
                for t in self.names + ["C", "nope"]:
                    probes.append(r + "/" + s + "/" + t)
        present = set(paths)
        for q in probes:
            if q in present:
                continue
            chk.outcome("absent-probe-depth%d" % q.count("/"))
            try:
                got = impl.get_account(q)
                chk.expect(got is None, "lookup/absent", lambda: "lookup of absent %r gave %r" % (q, getattr(got, "path", got)), hist)
            except Exception as e:
                chk.fail("lookup/absent-raises", "lookup of absent path %r raised %r instead of giving None" % (q, e), hist)
            try:
                impl.validate_account_names([rootnames[0], q])
                chk.fail("validate/accepts-absent", "validation accepted absent account %r" % q, hist)
            except ValueError:
                pass
            except Exception as e:
                chk.fail("validate/absent-raises", "validation of %r raised %r, not ValueError" % (q, e), hist)
        # the report
        rows = self._report(chk, impl)
        wantrows = sorted((n.atype, n.name, n.desc or "") for _, n in want)
        chk.expect(sorted((r[0], r[2], r[3]) for r in rows) == wantrows, "report/rows",
                   lambda: "report rows %r" % rows, hist)
        chk.expect(sorted((r[1].split("/")[-1], r[2]) for r in rows) == sorted((n.number, n.name) for _, n in want),
                   "report/numbers", lambda: "report rows %r" % rows, hist)


class Standalone(Gls):
    """A free-standing account subtree, also moved between parents."""
    def __init__(self, maxnew):
        self.maxnew = maxnew; self.depth3 = True

    def new(self):
        a = GeneralLedgerAccount("R", "root", "000", AccountType.equity)
        return a, dict(tree=[mirror(a)], new=0, roots=[0], parent=None)

    def _get(self, impl, model, addr):
        a = impl; n = model["tree"][0]
        for i in addr[1:]:
            a = a.accounts[i]; n = n.kids[i]
        return a, n

    def ops(self, model):
        for op in Gls.ops(self, model):
            yield op
        for p in ("P", "Q/P"):
            yield ("move", [0], p)

    def apply(self, chk, impl, model, op, hist):
        if op[0] == "move":
            impl.set_parent_path(op[2])
            model["parent"] = op[2]
        else:
            Gls.apply(self, chk, impl, model, op, hist)

    def canon(self, impl, model):
        return (Gls.canon(self, impl, model), model["parent"])

    def check(self, chk, impl, model, hist):
        want = list(model["tree"][0].walk(model["parent"] or ""))
        real = []
        def walk(a):
            real.append(a)
            for k in a.accounts:
                walk(k)
        walk(impl)
        chk.expect(len(real) == len(want), "tree/shape", "standalone tree has %d accounts, expected %d" % (len(real), len(want)), hist)
        base = want[0][0]
        for a, (p, n) in zip(real, want):
            chk.expect(a.path == p and a.name == n.name and a.account_type.name == n.atype, "path/recorded",
                       lambda: "account %s records path %r name %r type %r" % (p, a.path, a.name, a.account_type), hist)
            if p != base:
                rel = p[len(base) + 1:]
                got = impl.get_child_account(rel)
                chk.expect(got is a, "lookup/child", lambda: "child lookup %r gave %r" % (rel, got), hist)
        present = set(p[len(base) + 1:] for p, _ in want)
        for q in ["A", "B", "C", "A/A", "A/B", "B/A", "C/A", "A/C", "A/A/A", "nope", "nope/A", "A/nope"]:
            if q not in present:
                try:
                    got = impl.get_child_account(q)
                    chk.expect(got is None, "child/absent", lambda: "child lookup of absent %r gave %r" % (q, got), hist)
                except Exception as e:
                    chk.fail("child/absent-raises", "child lookup of absent %r raised %r instead of giving None" % (q, e), hist)


def chart(chk):
    """The initial chart: every account number has the documented type."""
    g = GeneralLedgerStructure("G")
    for a in g.accounts:
        chk.step()
        chk.eq(a.account_type.name, TYPES.get(a.number), "chart/type", ["new", a.name], what=a.name)
    chk.expect(len(g.accounts) == len(TYPES), "chart/size", "chart has %d root accounts" % len(g.accounts), ["new"])
    for p in ("Unallocated Income Statement/Gross Profit", "Unallocated Income Statement/Income Summary",
              "Retained Income/Retained Earnings", "Tax/Income Tax Expense", "Bank/Default"):
        chk.step()
        got = g.get_account(p)
        chk.expect(got is not None and got.path == p, "chart/" + p, "default account %s missing" % p, ["new"])
    chk.trace(["new"])


def number_less(chk):
    """Accounts created without a number (it is optional) are still reported."""
    g = GeneralLedgerStructure("G")
    g["Sales"].create_account("N1"); g["Sales"].create_account("N2", "010"); g["Sales"]["N1"].create_account("N3")
    base = os.path.join(chk.scratch, "gls-nn")
    with chk.guard("report/without-number", ["create Sales/N1 without number", "report"]):
        chk.step()
        g.report(ReportFormat.csv, base)
        names = [r[2] for r in csv.reader(open(base + ".csv"))]
        for n in ("N1", "N2", "N3"):
            chk.expect(names.count(n) == 1, "report/without-number", "row of %s missing" % n, ["create without number", "report"])


def edited(chk, item):
    """Numbers and descriptions, given or changed later, of accounts at every level; roots keep their first letter."""
    number, desc = item
    for when in ("given", "changed"):
        for target in (("Sales",), ("Sales", "X"), ("Sales", "X", "Y"), ("Sales", "Z"), ("Bank",), ("Bank", "X")):
            g = GeneralLedgerStructure("G")
            case = dict(account="/".join(target), number=number, description=desc, when=when)
            with chk.guard("edited", case):
                for p in (("Sales", "X"), ("Sales", "X", "Y"), ("Sales", "Z"), ("Bank", "X")):
                    par = g.get_account("/".join(p[:-1]))
                    mine = p == target and when == "given"
                    par.create_account(p[-1], *((number, desc) if mine else ("010", None)))
                root = len(target) == 1
                a = g.get_account("/".join(target))
                if when == "changed" or root:
                    a.description = desc
                    if not root:
                        a.number = number
                chk.step(2)
                rows = Gls._report(chk, g)
                want = []
                def walk(n):
                    want.append((n.account_type.name, (n.number or "").split("/")[-1], n.name, n.description or ""))
                    for k in n.accounts:
                        walk(k)
                for r in g.accounts:
                    walk(r)
                chk.expect((a.description, a.number) == (desc, a.number if root else number), "edited/held", lambda: "holds %r %r" % (a.description, a.number), case)
                got = [(r[0], r[1].split("/")[-1], r[2], r[3]) for r in rows]
                chk.expect(sorted(got) == sorted(want), "edited/report", lambda: "rows missing %r, rows too many %r" % (sorted(set(want) - set(got)), sorted(set(got) - set(want))), case)
                chk.trace(case)
                chk.state((target, item, when))


def awkward(chk, item):
    """Every ordered pair of awkward names, given to siblings, to parent and child, and by renaming."""
    a, b = item
    for root in ("Sales", "Bank"):
        sys_ = Gls([root], 9, True)
        sys_.names = [a, b]
        r = sys_.new()[1]["roots"][0]
        n0 = len(sys_.new()[1]["tree"][r].kids)
        for h in ([("create", [r], a), ("create", [r], b), ("create", [r, n0], b), ("create", [r, n0], a), ("create", [r, n0, 0], a),
                   ("rename", [r, n0, 0, 0], b), ("remove", [r], b), ("rename", [r, n0], b), ("remove", [r, n0], a), ("rename", [r, n0, 0], a)],
                  [("create", [r], a), ("create", [r, n0], a), ("create", [r, n0, 0], a), ("rename", [r, n0], b), ("remove", [r, n0], b), ("rename", [r], b + "*"), ("rename", [r], a + "*")]):
            impl, m = sys_.new()
            done = []
            for op in h:
                done.append(op)
                with chk.guard("names/" + op[0], done):
                    sys_.apply(chk, impl, m, op, done)
                    sys_.check(chk, impl, m, done)
                chk.step()
            chk.trace(done)
            chk.state((root, sys_.canon(impl, m)))


def tower(chk, item):
    """A chain of accounts of some depth, or many accounts side by side: every rename and every removal."""
    depth, width, ix = item
    sys_ = Gls(["Sales"], 99, True)
    r = sys_.new()[1]["roots"][0]
    n0 = len(sys_.new()[1]["tree"][r].kids)
    sys_.names = ["L%d" % i for i in range(depth)] if depth else ["W%d" % i for i in range(width)]
    if depth:
        addr = [[r] + [n0] + [0] * i for i in range(depth)]
        base = [("create", [r], "L0")] + [("create", addr[i], "L%d" % (i + 1)) for i in range(depth - 1)]
        ends = [("rename", addr[ix], "new"), ("remove", addr[ix - 1] if ix else [r], "L%d" % ix)]
    else:
        base = [("create", [r], "W%d" % i) for i in range(width)]
        ends = [("rename", [r, n0 + ix], "new"), ("remove", [r], "W%d" % ix)]
    for end in ends:
        impl, m = sys_.new()
        done = []
        for op in base + [end] + [("create", [r], "after")]:
            done.append(op)
            with chk.guard("tower/" + op[0], done):
                sys_.apply(chk, impl, m, op, done)
                chk.step()
                if op is end or op[-1] == "after":
                    sys_.check(chk, impl, m, done)
        chk.trace(done)
        chk.state((item, end[0], sys_.canon(impl, m)))


def run(chk):
    with chk.guard("chart", []):
        chart(chk)
        number_less(chk)
    q = chk.quick
    chk.parallel(awkward, [(a, b) for a in AWKWARD for b in AWKWARD if a != b])
    chk.bounds["names"] = "every ordered pair of %d names that look alike, for siblings, parent and child and renamings" % len(AWKWARD)
    chk.parallel(edited, list(itertools.product((None, "", "5", "010", "020", "999999", "I05", "A/1"), (None, "", "text", "two  words ", "a,b", '"q"', "line 1\nline 2", "\u00fc"))))
    depths, widths = ((2, 3, 4, 5, 7, 9, 10, 11, 12), (9, 10, 11, 12, 30)) if q else (range(1, 15), (5, 9, 10, 11, 12, 30, 60))
    chk.parallel(tower, [(d, 0, i) for d in depths for i in range(d)] + [(0, w, i) for w in widths for i in range(0, w, 1 if w < 13 else 7)])
    chk.bounds["towers"] = "chains of %r nested accounts and %r accounts side by side, every rename and removal" % (tuple(depths), tuple(widths))
    bfs(chk, Gls(["Bank", "Sales"], 2 if q else 3, True), 3 if q else 4, "two-roots", max_states=12000 if q else 60000)
    bfs(chk, Gls(["Sales"], 3 if q else 4, True), 4 if q else 6, "one-root", max_states=12000 if q else 60000)
    after_rejection(chk, Gls(["Bank", "Sales"], 2, True), "rejected", lambda op: 0)
    after_rejection(chk, Standalone(3), "rejected-standalone", lambda op: 0)
    bfs(chk, Standalone(3 if q else 4), 4 if q else 6, "standalone", max_states=12000 if q else 120000)
