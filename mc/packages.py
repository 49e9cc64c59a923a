"""Register machine over material packages, explored in lock-step with plain bookkeeping.

Five registers hold packages: 0 and 1 of the main material, 2 of a sub-material (every one of
its components exists in the main material, in another order), 3 the register every new package
is written to, 4 a package of a material with a component the main material does not have. Every
operation may read any register and after every operation *all* registers and all materials are
compared with the model, so that any mass lost, invented or shared between packages shows up.
"""
import copy, itertools, os
import numpy as np
from mc import core, explore

ATOM = dict(Al=26.982, C=12.011, Ca=40.078, Fe=55.845, H=1.008, Mg=24.305, N=14.007, O=15.999,
            S=32.06, Si=28.086, Ti=47.867, Cr=51.996, Mn=54.938)


def write_material(path, head, rows, after=()):
    with open(path, "w") as f:
        f.write(" ".join(head) + "\n")
        for r in rows:
            f.write(" ".join(str(x) for x in r) + "\n")
        for l in after:
            f.write(l + "\n")
    return path


JUST = 1.0 + 1e-7       # slightly more than there is


class Rejected(Exception):
    pass


def hidden(p):
    """Whatever the object keeps: packages that look alike but keep different things (a result
    remembered from an earlier query, say) are different states."""
    def c(x):
        if isinstance(x, np.ndarray):
            return tuple(c(y) for y in x.ravel().tolist())
        if isinstance(x, (bool, str, type(None))):
            return x
        if isinstance(x, (int, float, np.number)):
            return 0.0 if abs(x) < 1e-6 else core.canon_num(x, 5)
        if isinstance(x, dict):
            return tuple(sorted((str(k), repr(c(v))) for k, v in x.items()))
        if isinstance(x, (list, tuple)):
            return tuple(c(y) for y in x)
        return type(x).__name__
    try:
        return tuple((k, c(v)) for k, v in sorted(vars(p).items()))
    except TypeError:
        return ()


class PackageSystem:
    """Subclasses supply the adapter part (materials, observation, model extras)."""
    has_add_to = True
    sub_ops = None          # None: all operations

    def __init__(self, chk, start, targets=(0, 3), full=True):
        self.scratch = chk.scratch
        self.start = start
        self.targets = targets
        self.full = full
        self.mats = self.materials()
        self.frozen = {k: self.material_state(m) for k, m in self.mats.items()}

    def opname(self, op):
        return str(op[0])

    # -- state ---------------------------------------------------------------------
    def new(self):
        regs, model = [], []
        for mat, assay, mass, kw in self.starts(self.start):
            regs.append(self.make(mat, assay, mass, kw))
            model.append(self.model_make(mat, assay, mass, kw))
        return regs, model

    def model_make(self, mat, assay, mass, kw):
        comps = self.comps[mat]
        if assay is None:
            return dict(mat=mat, m=dict.fromkeys(comps, 0.0), **self.extra0(mat, None, kw))
        a = self.assays[mat][assay]
        tot = sum(a)
        return dict(mat=mat, m={c: mass * x / tot for c, x in zip(comps, a)},
                    **self.extra0(mat, assay, kw))

    def extra0(self, mat, assay, kw):
        return {}

    def total(self, s):
        return sum(s["m"].values())

    # -- operations ------------------------------------------------------------------
    def scale_ops(self, model):
        """Operations that leave or move traces: next to nothing added, next to everything extracted."""
        for i in (0, 1, 3):
            for j in range(5):
                yield ("add", i, j)
                if self.has_add_to:
                    yield ("add_to", i, j)
            for s in (1e-6 / 3, 1e6 / 3):
                yield ("mul", i, s)
            for f in (1e-5 / 3, 1 / 3, 1 - 1e-5 / 3):
                yield ("extract", i, ["frac", f])
                for c in self.tuple_comps():
                    yield ("extract", i, ["comp", c, f])
            for c in self.tuple_comps():
                for v in (1e-4 / 3, 1e7 / 3):
                    yield ("addt", i, c, v)
                    if self.has_add_to:
                        yield ("add_to_t", i, c, v)

    def ops(self, model):
        if self.scales:
            return self.scale_ops(model)
        return self.all_ops(model)

    scales = False

    def label(self, n):
        return n

    def all_ops(self, model):
        X = self.comps["X"]
        c0, c1 = X[0], X[-1]
        bad = self.unknown
        for i in self.targets:
            for j in range(5):
                yield ("add", i, j)
            if self.has_add_to:
                for j in range(5):
                    yield ("add_to", i, j)
            for c in self.tuple_comps():
                yield ("addt", i, c, 1.5)
                if self.has_add_to:
                    yield ("add_to_t", i, c, 2.5)
            yield ("addt", i, bad, 1.5)
            if self.has_add_to:
                yield ("add_to_t", i, bad, 1.5)
            for s in (0.0, 0.5, 3.0, -1.0) + ((-1e-13,) if self.full else ()):
                yield ("mul", i, s)
            for f in (0.0, 0.25, 1.0, 1.5):
                yield ("extract", i, ["frac", f])
            for c in self.tuple_comps():
                for f in (0.5, 1.0, 1.5):
                    yield ("extract", i, ["comp", c, f])
                if self.full and model[i]["m"].get(c, 0.0) > 1e-3:
                    yield ("extract", i, ["comp", c, JUST])
            if self.full and self.total(model[i]) > 1e-3:
                yield ("extract", i, ["frac", JUST])
            yield ("extract", i, ["comp", bad, 1.0])
            for c in self.str_comps():
                yield ("extract", i, ["name", c])
            yield ("clear", i)
            yield ("clone", i)
            if model[i]["m"].get(c0, 0.0) > 0 and c1 in model[i]["m"]:
                yield ("swap", i, c0, c1)
            for o in self.more_ops(i, model):
                yield o
            for n in range(len(self.invalid)):
                yield ("invalid_add", i, n)
                yield ("invalid_extract", i, n)
                if self.has_add_to:
                    yield ("invalid_add_to", i, n)
            for n in range(len(self.invalid_mul)):
                yield ("invalid_mul", i, n)
        yield ("add", 2, 0)
        yield ("mul", 2, 2.0)
        yield ("extract", 2, ["frac", 0.5])
        yield ("clone", 1)

    def more_ops(self, i, model):
        return ()

    def relation_ops(self, i):
        return ()

    def tuple_comps(self):
        X = self.comps["X"]
        return (X[0], X[-1])

    def str_comps(self):
        return (self.comps["X"][1],)

    invalid = (None, 3, ("A",), ("A", "B"), (1, 1.0, 1.0), [1.0], {}, ("A", 1.0, 1.0, 1.0))
    invalid_mul = (None, 2, "2", (1.0,), [2.0])

    # model side: new slot(s) or Rejected
    def m_add(self, a, b):
        if any(c not in a["m"] for c in b["m"]):
            raise Rejected()
        r = copy.deepcopy(a)
        for c, v in b["m"].items():
            r["m"][c] += v
        return r

    def m_addt(self, a, c, v):
        if c not in a["m"]:
            raise Rejected()
        r = copy.deepcopy(a)
        r["m"][c] += v
        return r

    def m_scale(self, a, s):
        r = copy.deepcopy(a)
        for c in r["m"]:
            r["m"][c] *= s
        return r

    def m_clear(self, a):
        return self.m_scale(a, 0.0)

    def m_extract_comp(self, a, c, v):
        if c not in a["m"]:
            raise Rejected()
        rest, out = copy.deepcopy(a), self.m_scale(a, 0.0)
        out["m"][c] = v
        rest["m"][c] -= v
        return rest, out

    def amount_all(self, p):
        return p.get_mass()

    def amount_comp(self, p, c):
        raise NotImplementedError

    def apply(self, chk, regs, model, op, hist):
        k, i = op[0], op[1]
        want = None            # new content of register i (mutators) / 3 (constructors)
        rej = False
        p = regs[i]
        new = list(model)
        result_type = type(regs[0])
        res = None
        call = left = None
        try:
            if k == "add":
                new[3] = self.m_add(model[i], model[op[2]])
                call = lambda: p + regs[op[2]]
            elif k == "add_to":
                new[i] = self.m_add(model[i], model[op[2]])
                call = lambda: p.add_to(regs[op[2]])
            elif k == "addt":
                new[3] = self.m_addt(model[i], *op[2:])
            elif k == "add_to_t":
                new[i] = self.m_addt(model[i], *op[2:])
            elif k == "mul":
                if op[2] < 0:
                    raise Rejected()
                new[3] = self.m_scale(model[i], op[2])
            elif k == "clear":
                new[i] = self.m_clear(model[i])
            elif k == "clone":
                new[3] = copy.deepcopy(model[i])
            elif k == "extract":
                sel = op[2]
                if sel[0] == "frac":
                    if sel[1] > 1.0 and self.total(model[i]) == 0.0:
                        raise Rejected()
                    if sel[1] > 1.0:
                        raise Rejected()
                    rest, out = self.m_scale(model[i], 1.0 - sel[1]), self.m_scale(model[i], sel[1])
                elif sel[0] == "comp":
                    c, f = sel[1:]
                    have = model[i]["m"].get(c)
                    if have is None:
                        rest, out = self.m_extract_comp(model[i], c, 1.0)
                    elif f > 1.0:
                        raise Rejected()
                    else:
                        rest, out = self.m_extract_comp(model[i], c, have * f)
                else:
                    c = sel[1]
                    rest, out = self.m_extract_comp(model[i], c, model[i]["m"].get(c, 0.0))
                new[i], new[3] = rest, out
                if i == 3:
                    new[3] = out
                    left = rest
            elif k == "swap":
                # half of one component replaced by the same mass of another
                half = 0.5 * model[i]["m"][op[2]]
                rest, _ = self.m_extract_comp(model[i], op[2], half)
                new[i] = rest
                new[i if self.has_add_to else 3] = self.m_addt(rest, op[3], half)
            elif k.startswith("invalid"):
                raise Rejected()
            else:
                return self.apply_more(chk, regs, model, op, hist)
        except Rejected:
            rej = True
            new = list(model)
        # the real call
        def run():
            if k == "add":
                return p + regs[op[2]]
            if k == "add_to":
                return p.add_to(regs[op[2]])
            if k == "addt":
                return p + self.real_tuple(op[2], op[3])
            if k == "add_to_t":
                return p.add_to(self.real_tuple(op[2], op[3]))
            if k == "mul":
                return p * op[2]
            if k == "swap":
                half = 0.5 * float(self.amount_comp(p, op[2]))
                p.extract(self.real_tuple(op[2], half))
                t = self.real_tuple(op[3], half)
                return p.add_to(t) if self.has_add_to else p + t
            if k == "clear":
                return p.clear()
            if k == "clone":
                return p.clone()
            if k == "invalid_add":
                return p + self.invalid[op[2]]
            if k == "invalid_add_to":
                return p.add_to(self.invalid[op[2]])
            if k == "invalid_mul":
                return p * self.invalid_mul[op[2]]
            if k == "invalid_extract":
                return p.extract(self.invalid[op[2]])
            sel = op[2]
            if sel[0] == "frac":
                tot = self.amount_all(p)
                a = tot if sel[1] == 1.0 else tot * sel[1] + (1.0 if sel[1] > JUST else 0.0)
                return p.extract(self.real_amount(a, len(hist)))
            if sel[0] == "comp":
                c, f = sel[1:]
                have = self.amount_comp(p, c) if c in model[i]["m"] else 0.0
                a = have if f == 1.0 else have * f + (1.0 if f > JUST else 0.0)
                return p.extract(self.real_tuple(c, a))
            return p.extract(self.real_name(sel[1]))
        key = k + self.situation(op, model)
        if rej:
            try:
                run()
            except Exception as e:
                chk.outcome(k + "/rejected")
            else:
                chk.fail(key + "/accepted", "an operation that must be rejected was accepted", hist)
            return regs, new
        res = run()
        chk.outcome(k + "/done")
        if k in ("add", "addt", "mul", "clone", "extract") or k == "swap" and not self.has_add_to:
            if not chk.expect(type(res) is result_type, key + "/type", "result is %r" % type(res), hist):
                return regs, model
            chk.expect(all(res is not r for r in regs) or k == "extract", key + "/new",
                       "the result is not a new package", hist)
            regs = list(regs)
            regs[3] = res
            if left is not None:
                # the register is reused for what was extracted: look at what is left now
                self.check_one(chk, p, left, key + "/left", hist, "r3 (left)", True)
        return regs, new

    def situation(self, op, model):
        """Distinguishes situations for the failure key."""
        k = op[0]
        if k in ("add", "add_to"):
            a, b = model[op[1]], model[op[2]]
            return ":same" if a["mat"] == b["mat"] else ":other"
        if k == "extract":
            return ":" + op[2][0]
        return ""

    def real_amount(self, a, n):
        return float(a)

    def real_tuple(self, c, v):
        return (c, float(v))

    def real_name(self, c):
        return c

    # -- invariants --------------------------------------------------------------------
    def check(self, chk, regs, model, hist):
        last = hist[-1] if hist else ("init",)
        tag = str(last[0]) + (":" + str(last[2][0]) if last[0] == "extract" else "")
        for n, (r, s) in enumerate(zip(regs, model)):
            role = "r%d" % n
            full = not hist or n == 3 or n == last[1]
            self.check_one(chk, r, s, tag + "/" + ("result" if n == 3 else "operand"), hist, role, full)
        for name, m in self.mats.items():
            chk.expect(self.material_state(m) == self.frozen[name], tag + "/material-changed",
                       "material %s changed" % name, hist)

    def check_masses(self, chk, got, s, tag, hist, role):
        scale = max([1e-6] + list(s["m"].values()))
        chk.expect(set(got) == set(s["m"]), tag + "/components",
                   "%s: components %r instead of %r" % (role, got, s["m"]), hist)
        for c, v in s["m"].items():
            chk.expect(core.close(got.get(c), v, 1e-9, 1e-12 * scale), tag + "/mass",
                       "%s: mass of %s is %r, bookkeeping says %r" % (role, c, got.get(c), v), hist)

    def canon(self, regs, model):
        out = []
        for s in model:
            out.append((s["mat"], tuple(core.canon_num(v) for v in s["m"].values()))
                       + tuple(core.canon_num(s[x]) for x in sorted(s) if x not in ("mat", "m")))
        # registers that share arrays behave differently: they are different states
        arr = [id(self.array(r)) for r in regs]
        return (tuple(out), tuple(arr.index(a) for a in arr), self.impl_extra(regs),
                tuple(hidden(r) for r in regs))

    def impl_extra(self, regs):
        return ()


def _relate(chk, item):
    cls, comps, assays, depth, kw, key = item

    class Related(cls):
        def label(self, n):
            return "m"              # materials are told apart by what they are, not by their names

        def ops(self, model):
            for i in (0, 1, 2, 3):
                for j in range(5):
                    yield ("add", i, j)
                    if self.has_add_to:
                        yield ("add_to", i, j)
                for o in self.relation_ops(i):
                    yield o
    Related.comps, Related.assays = comps, assays
    explore.bfs(chk, Related(chk, "filled", **kw), depth, key=key, procs=1, max_states=100000)


def relations(chk, cls, depth, sizes=(1, 2, 3, 4), wide=(12, 25), pool=None, **kw):
    """Addition between packages of materials in every relation: the other material lists every ordered
    choice of the main one's components (all of them in every order included), or of a large pool."""
    X, Z = cls.comps["X"], cls.comps["Z"]
    items = []

    def case(x, y, z, key):
        a = {n: dict(A=[0.1 + 0.07 * i for i in range(len(c))]) for n, c in (("Y", y), ("Z", z))}
        a["X"] = {k: [v[(i + s) % 4] for i in range(len(x))] for s, (k, v) in enumerate(cls.assays["X"].items())}
        items.append((cls, dict(X=x, Y=y, Z=z), a, depth, kw, key))
    for k in sizes:
        for y in itertools.permutations(X, k):
            case(list(X), list(y), Z, "relation:" + "-".join(str(X.index(c)) for c in y))
    for n in wide if pool else ():
        x = list(pool[:n])
        for tag, y in (("reversed", x[::-1]), ("odd", x[1::2]), ("rotated", x[7:] + x[:7]), ("last", x[-1:]), ("most", x[:-1])):
            case(x, y, [x[0], pool[-1]], "relation:%d-%s" % (n, tag))
    chk.bounds["relations"] = "%d pairs of materials, histories of %d additions" % (len(items), depth)
    chk.parallel(_relate, items)


def number_kinds(chk, cls, kinds=("float64", "float32"), chains=2, **kw):
    """Operations given the same numbers as numpy scalars: packages are exactly those of plain floats.

    Chains of up to ``chains`` operations; every assignment of a kind of number to each of them.
    """
    import itertools
    sp = cls(chk, "filled", **kw)
    X = sp.comps["X"]
    ops = {
        "mul": lambda p, f: p * f(0.5),
        "addt": lambda p, f: p + (X[0], f(1.5)),
        "extract": lambda p, f: (p.extract(f(0.25)), p)[1],
        "extracted": lambda p, f: p.extract(f(0.25)),
        "extract-comp": lambda p, f: (p.extract((X[1], f(0.125))), p)[1],
        "extracted-comp": lambda p, f: p.extract((X[1], f(0.125))),
    }
    if sp.has_add_to:
        ops["add_to"] = lambda p, f: (p.add_to((X[0], f(2.5))), p)[1]
    if hasattr(cls, "stream"):
        ops["addt3"] = lambda p, f: p + (X[1], f(1.5), f(300.0))

        def setter(n, v):
            def run(p, f):
                setattr(p, n, f(v))
                return p
            return run
        ops["setT"], ops["setP"] = setter("T", 800.0), setter("P", 0.5)
        ops["setH"] = setter("Hfr" if cls.stream else "H", -2.0)
    if hasattr(sp.new()[0][0], "H2O_mass"):
        ops["addw"] = lambda p, f: p + ("H2O", f(1.5))
    plain = {}
    for n in range(1, chains + 1):
        for chain in itertools.product(sorted(ops), repeat=n):
            for ks in itertools.product(("float",) + tuple(kinds), repeat=n):
                case = dict(chain=chain, numbers=ks)
                key = "numbers:" + "+".join(chain)
                with chk.guard(key, case):
                    regs, _ = sp.new()
                    p, q = regs[0], regs[1]
                    try:
                        for o, k in zip(chain, ks):
                            chk.step()
                            p = ops[o](p, float if k == "float" else getattr(np, k))
                        # more arithmetic on the result shows what it is made of
                        r = p + q
                        got = [[float(v) for v in sp.array(p)], [float(v) for v in sp.array(r)],
                               [float(getattr(p, n)) for n in ("T", "P", "H", "Hfr", "solid_density", "H2O_mass") if hasattr(p, n)]]
                    except Exception as e:
                        got = type(e).__name__       # more than there is
                    if set(ks) == {"float"}:
                        plain[chain] = got
                    w = plain[chain]
                    tol = 1e-4 if "float32" in ks else 1e-8     # numbers of single precision, arithmetic of single precision
                    ok = got == w if str in (type(got), type(w)) else len(got) == len(w) and all(core.allclose(x, y, tol, tol / 10) for x, y in zip(got, w))
                    chk.expect(ok, key, lambda: "%r with numbers of kind %r, %r with plain ones" % (got, ks, w), case)
                    chk.state(("numbers", chain, ks))
                    chk.trace(case)
    chk.outcome("kinds of numbers")
