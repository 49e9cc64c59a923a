"""P01: property models accept exactly their domain and have no memory.

Every model of the package: every state of a grid over its declared domain (both ends included);
every single and double fault of a state (missing, unknown, of the wrong type, below, above); every
short history of evaluations, good and bad, over all models.
"""
import copy, itertools, math
from mc import core, physmodels


def inside(sub, spec):
    for st in spec.inside:
        case = dict(model=spec.name, state=st)
        sub.state((spec.name, repr(st)))
        with sub.guard("inside/" + spec.name, case):
            sub.step(3)
            given = copy.deepcopy(st)
            v = spec.model(**given)
            sub.expect(given == st and all(list(given[k]) == list(st[k]) for k in spec.dicts), "input/" + spec.name,
                       "state %r became %r" % (st, given), case)
            ok = isinstance(float(v), float) and math.isfinite(v) and (v > 0 or not spec.positive)
            sub.expect(ok, "value/" + spec.name, "%s(%r) = %r" % (spec.name, st, v), case)
            w = spec.model.calculate(**given)
            sub.expect(v == w, "repeat/" + spec.name, "first %r, then %r" % (v, w), case)
            given2 = dict(reversed(list(copy.deepcopy(st).items())))
            sub.expect(spec.model(**given2) == v, "keyword-order/" + spec.name, "differs with keywords reversed", case)
        sub.trace(case)
    sub.outcome("inside")


def faults(spec, st):
    """All single faults as (label, state)."""
    for k in st:
        s = dict(st); del s[k]
        yield "missing " + k, s
        for bad in ("abc", None, [300.0], {} if k not in spec.dicts else 0.5, True):
            yield "%s=%r" % (k, bad), dict(st, **{k: bad})
        if k not in spec.dicts:
            # equal to the value, yet not a number of the kind that is asked for
            for like in (complex, str, lambda v: (v,)) + ((lambda v: v == 1.0,) if st[k] in (0.0, 1.0) else ()):
                yield "%s like %r" % (k, like(st[k])), dict(st, **{k: like(st[k])})
        else:
            yield "%s as pairs" % k, dict(st, **{k: list(st[k].items())})
    for k in ("T", "P", "x", "y", "Q", "t", "y_Ca"):
        if k not in st:
            yield "unknown " + k, dict(st, **{k: 1.0 if k not in "xy" else {"CO2": 1.0}})
    for k, (lo, hi) in spec.ranges.items():
        for d in (1e-6, 0.5, 1e4, float("inf")):
            yield "%s below" % k, dict(st, **{k: lo - d})
        if hi is not None:
            for d in (1e-6, 0.5, 1e4, float("inf")):
                yield "%s above" % k, dict(st, **{k: hi + d})


def rejections(sub, spec):
    states = spec.inside[:1] + spec.inside[-1:]
    wants = [(spec.model(**copy.deepcopy(st)), spec.model.calculate(**copy.deepcopy(st))) for st in states]
    for n, st in enumerate(states):
        fs = list(faults(spec, st))
        pairs = [(a, f) for a, f in fs]
        for (la, a), (lb, b) in itertools.combinations(fs, 2):
            # both faults at once: b's change applied on a
            m = dict(a)
            for k in list(m):
                if k not in b:
                    del m[k]
            for k in b:
                if k not in st or (k in m and b[k] is not st[k]):
                    m[k] = b[k]
            pairs.append((la + " & " + lb, m))
        for label, bad in pairs:
            case = dict(model=spec.name, fault=label, state=repr(bad))
            sub.state((spec.name, label))
            for how in ("call", "calculate"):
                sub.step()
                given = copy.deepcopy(bad)
                spec.model(**copy.deepcopy(st))          # whatever was valid a moment ago
                try:
                    v = spec.model(**given) if how == "call" else spec.model.calculate(**given)
                except ValueError:
                    sub.outcome("rejected")
                    sub.expect(repr(given) == repr(bad), "rejected-input/" + spec.name, "%r became %r" % (bad, given), case)
                    # a state that is refused leaves nothing behind for the next one
                    other = states[1 - n] if len(states) > 1 else st
                    w = wants[(1 - n) % len(wants)]
                    with sub.guard("after-rejection/" + spec.name, case):
                        if how == "call":
                            sub.expect(spec.model(**copy.deepcopy(other)) == w[0], "after-rejection/" + spec.name, lambda: "%r gives another value afterwards" % (other,), case)
                        else:
                            spec.model.calculate(**copy.deepcopy(st))
                            try:
                                spec.model.calculate(**copy.deepcopy(bad))
                            except ValueError:
                                pass
                            sub.expect(spec.model.calculate(**copy.deepcopy(other)) == w[1], "after-rejection/" + spec.name, lambda: "%r gives another value afterwards" % (other,), case)
                    continue
                except Exception as e:
                    sub.fail("wrong-rejection/" + spec.name, "%s: %s gives %s: %s" % (spec.name, label, type(e).__name__, e), case)
                    continue
                sub.fail("accepted/" + spec.name, "%s: %s gives %r" % (spec.name, label, v), case)
            sub.trace(case)


def histories(sub, item):
    """Values never depend on what was evaluated before."""
    first, depth = item
    chosen = [s for s in physmodels.specs(8) if s.name in (
        "ideal.RhoTPx", "Air.Cp", "N2.mu", "water.rho", "mix.WilkeMuTx", "mix.IdealCpTx", "slag.RiboudViscosityTx",
        "slag.UrbainViscosityTy", "slag.RiboudViscosityTy", "coal.DafHTy", "CO2.rho")]
    ops = []
    for s in chosen:
        for st in (s.inside[0], s.inside[-1]):
            ops.append((s, st, s.model(**copy.deepcopy(st))))
        ops.append((s, dict(list(faults(s, s.inside[0]))[0][1]), None))
    shared = [copy.deepcopy(o[1]) for o in ops]        # the same state objects are passed again and again
    for n in range(depth):
        for rest in itertools.product(range(len(ops)), repeat=n):
            hist = (first,) + rest
            case = dict(history=[(ops[i][0].name, repr(ops[i][1])) for i in hist])
            for i in hist:
                s, st, want = ops[i]
                sub.step()
                try:
                    v = s.model(**shared[i])
                except ValueError as e:
                    sub.expect(want is None, "history/rejected", "%s(%r) rejected: %s" % (s.name, st, e), case)
                    continue
                except Exception as e:
                    sub.fail("history/exception", "%s(%r): %r" % (s.name, st, e), case)
                    continue
                sub.expect(want is not None and v == want, "history/" + s.name, "%s(%r): expected %r, observed %r" % (s.name, st, want, v), case)
            sub.state(hist)
            sub.trace(hist)


def count_ops():
    return 33


def instances(sub, _):
    """Two instances of a model do not share their domain or coefficients."""
    from auxi.tools.materialphysicalproperties.polynomial import PolynomialModelT
    from auxi.tools.materialphysicalproperties import idealgas
    def poly(c, lo, hi):
        m = PolynomialModelT("Fe", "Density", "rho", "\\rho", "kg/m3", None, None, c)
        m.state_schema["T"]["min"] = lo
        m.state_schema["T"]["max"] = hi
        return m
    with sub.guard("instances", None):
        for perm in itertools.permutations(range(3)):
            spec = [([1.0, 2.0], 100.0, 200.0), ([3.0], 150.0, 500.0), ([1.0, 0.0, 1.0], 400.0, 450.0)]
            ms = {i: poly(*spec[i]) for i in perm}
            for i, T in itertools.product(perm, (50.0, 100.0, 120.0, 150.0, 180.0, 200.0, 250.0, 400.0, 425.0, 450.0, 480.0, 500.0, 501.0)):
                sub.step()
                c, lo, hi = spec[i]
                case = dict(order=perm, model=i, T=T)
                try:
                    v = ms[i](T=T)
                except ValueError:
                    sub.expect(not lo <= T <= hi, "instances/rejected", "T=%r rejected, domain %r" % (T, (lo, hi)), case)
                    continue
                want = 0.0
                for k in c:
                    want = want * T + k
                sub.expect(lo <= T <= hi and core.close(v, want), "instances/value", "T=%r: %r, domain %r, expected %r" % (T, v, (lo, hi), want), case)
                sub.trace(case)
            a, b = idealgas.RhoT(28.0, 1e5), idealgas.RhoT(44.0, 2e5)
            va, vb = a(T=300.0), b(T=300.0)
            sub.expect(a(T=300.0) == va and core.close(vb / va, 44.0 / 28 * 2), "instances/RhoT", "%r %r" % (va, vb), None)
            sub.state(perm)


def run(chk):
    specs = physmodels.specs(100 if chk.quick else 400)
    chk.parallel(inside, specs)
    chk.parallel(rejections, specs)
    chk.parallel(instances, [0])
    depth = 3 if chk.quick else 4
    chk.parallel(histories, [(i, depth) for i in range(count_ops())])
    chk.bounds = dict(models=len(specs), grid=100 if chk.quick else 400, faults_at_once=2, history_depth=depth, history_operations=count_ops())
    chk.assumptions = ["a lower limit of zero is exclusive (0 K and 0 Pa are not judged)",
                       "slag models are judged between 1200 and 2200 K, coal models from 50 K; compositions contain at least one component of the model",
                       "the expansion coefficient of water may be negative near freezing",
                       "whether integers are accepted is not judged"]
