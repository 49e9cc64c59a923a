"""H02: dimensionless quantities and pressure-drop relations on grids of boundary and interior values.

Every combination of the alphabet against the definitions written independently here; the implicit
Colebrook factor by its residual and against bisection; agreement between the correlations; the
warning of the explicit correlation; every ordered pair of calls for independence.
"""
import contextlib, io, itertools, math
from mc import core

G = 9.80665


def geom(lo, hi, n):
    return [lo * (hi / lo) ** (i / (n - 1.0)) for i in range(n)]


def groups(sub, item):
    from auxi.tools.transportphenomena import dimensionlessquantities as dq
    L, n = item
    Ts = (250.0, 300.0, 300.5, 1500.0)
    vals = geom(1e-8, 1e2, n)
    for a, b in itertools.product(vals, vals):
        case = dict(L=L, a=a, b=b)
        with sub.guard("groups", case):
            for name, want in (("Pr", a / b),):
                sub.step(); sub.eq(dq.Pr(a, b), want, "groups/Pr", case, 1e-12, 0)
            sub.eq(dq.Re(L, a, b), L * a / b, "groups/Re", case, 1e-12, 0)
            sub.eq(dq.Re(L=L, v=0.0, nu=b), 0.0, "groups/Re0", case, 0, 0)
            sub.eq(dq.Nu(L, a, b), L * a / b, "groups/Nu", case, 1e-12, 0)
            sub.eq(dq.Sh(L=L, h=a, D=b), L * a / b, "groups/Sh", case, 1e-12, 0)
            sub.step(5)
            for t1, t2, beta in itertools.product(Ts, Ts, (1e-5, 2e-4, 1 / 300.0)):
                gr, pr = dq.Gr(L, t1, t2, beta, a, G), dq.Pr(a, b)
                want = G * beta * (t1 - t2) * L * L * L / (a * a)
                sub.eq(gr, want, "groups/Gr", dict(case, Ts=t1, Tf=t2, beta=beta), 1e-12, 0)
                half = dq.Gr(L=L, Ts=t1, Tf=t2, beta=beta, nu=a, g=G / 2)
                sub.eq(half, want / 2, "groups/Gr-g", dict(case, Ts=t1, Tf=t2, beta=beta), 1e-12, 0)
                ra = dq.Ra(L, t1, t2, b, beta, a)
                sub.eq(ra, gr * pr, "groups/Ra=GrPr", dict(case, Ts=t1, Tf=t2, beta=beta), 1e-9, 0)
                sub.eq(dq.Ra(L=L, Ts=t1, Tf=t2, alpha=b, beta=beta, nu=a), G * beta * (t1 - t2) * L ** 3 / (a * b), "groups/Ra", dict(case, Ts=t1, Tf=t2, beta=beta), 1e-9, 0)
                sub.step(4)
        sub.state(("groups", L, a, b))
        sub.trace(case)


def resid(y, t1, t2):
    return y + 2 * math.log10(t1 + t2 * y)


def bisect(Re, rr):
    t1, t2 = rr / 3.7, 2.51 / Re
    lo, hi = 1e-6, 1e3
    for _ in range(200):
        mid = (lo + hi) / 2
        if resid(mid, t1, t2) < 0:
            lo = mid
        else:
            hi = mid
    return 1 / lo ** 2


def friction(sub, item):
    from auxi.tools.transportphenomena.fluidflow import pressuredrop as p
    Re, rough = item
    prev = None
    with sub.guard("friction", Re):
        sub.eq(p.f_l(Re), 64.0 / Re, "friction/laminar", Re, 1e-12, 0)
        ts = 1 / (1.82 * math.log10(Re) - 1.64) ** 2
        sub.eq(p.f_ts(Re), ts, "friction/smooth", Re, 1e-12, 0)
        sub.step(2)
        if 1e4 <= Re <= 1e7:
            sub.expect(core.close(p.f_ts(Re), p.f_tr_Colebrook(Re, 0.0, 1.0), 0.035, 0), "friction/smooth-implicit", "smooth %r, implicit %r" % (p.f_ts(Re), p.f_tr_Colebrook(Re, 0.0, 1.0)), Re)
    for rr in rough:
        for D in (0.01, 1.0, 3.7):
            e = rr * D
            case = dict(Re=Re, e=e, D=D)
            with sub.guard("friction", case):
                f = p.f_tr_Colebrook(Re, e, D)
                quiet = io.StringIO()
                with contextlib.redirect_stdout(quiet):
                    h = p.f_tr_Haaland(Re, e, D, warn=False)
                sub.expect(quiet.getvalue() == "", "friction/no-warnings", "warnings switched off, printed %r" % quiet.getvalue(), case)
                sub.step(2)
                sub.expect(math.isfinite(f) and f > 0 and abs(resid(1 / math.sqrt(f), rr / 3.7, 2.51 / Re)) < 1e-8, "friction/implicit",
                           "f = %r does not satisfy the Colebrook equation" % f, case)
                sub.eq(f, bisect(Re, rr), "friction/implicit-value", case, 1e-8, 0)
                sub.eq(h, 1 / (1.8 * math.log10(6.9 / Re + (rr / 3.7) ** 1.11)) ** 2, "friction/explicit", case, 1e-12, 0)
                if 4000 <= Re <= 1e8 and rr <= 0.05:
                    sub.expect(core.close(f, h, 0.035, 0), "friction/agreement", "explicit %r, implicit %r" % (h, f), case)
                    sub.outcome("agreement within %.0f %%" % math.ceil(100 * abs(f / h - 1)))
                if D == 1.0:
                    sub.expect(prev is None or f >= prev * (1 - 1e-9), "friction/roughness", "friction falls with roughness", case)
                    prev = f
                # the warning
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    w = p.f_tr_Haaland(Re, e, D)
                n = ((e / D) > 0.05) + (Re < 4000.0 or Re > 1e8)
                sub.step()
                sub.expect(w == h, "friction/warn-value", "%r with warnings, %r without" % (w, h), case)
                sub.expect(out.getvalue().count("out of range") == n, "friction/warnings", "%d warnings expected, printed %r" % (n, out.getvalue()), case)
            sub.state((Re, rr, D))
            sub.trace(case)


def drops(sub, item):
    from auxi.tools.transportphenomena.fluidflow import pressuredrop as p
    f, n = item
    for L, D, rho, v in itertools.product(geom(0.1, 1e3, n), geom(1e-3, 5.0, n), geom(0.05, 1.4e4, n), [0.0, -2.0] + geom(1e-3, 300.0, n)):
        case = dict(f=f, L=L, D=D, rho=rho, v=v)
        with sub.guard("drop", case):
            sub.step(2)
            dp = getattr(p, "\u0394p")(f, L, D, rho, v)
            sub.eq(dp, f * L * rho * v * v / (2.0 * D), "drop/value", case, 1e-12, 0)
            P = math.pi * D
            sub.eq(p.D_h(math.pi * D * D / 4, P), D, "drop/D_h-circle", case, 1e-12, 0)
            sub.eq(p.D_h(D * L, 2 * (D + L)), 2 * D * L / (D + L), "drop/D_h-duct", case, 1e-12, 0)
        sub.state(("drop", f, L, D, rho, v))
        sub.trace(case)


def chains(sub, item):
    """Laminar and turbulent pipe flow end to end: Hagen-Poiseuille, and Reynolds from velocity."""
    from auxi.tools.transportphenomena.fluidflow import pressuredrop as p
    from auxi.tools.transportphenomena import dimensionlessquantities as dq
    D, n = item
    for v, nu, rho, L in itertools.product(geom(1e-3, 10.0, n), geom(1e-7, 1e-3, n), (1.2, 1000.0, 7000.0), (1.0, 100.0)):
        case = dict(D=D, v=v, nu=nu, rho=rho, L=L)
        with sub.guard("chain", case):
            sub.step(3)
            Re = dq.Re(p.D_h(math.pi * D * D / 4, math.pi * D), v, nu)
            dp = getattr(p, "\u0394p")(p.f_l(Re), L, D, rho, v)
            sub.eq(dp, 32 * nu * rho * L * v / D ** 2, "chain/Hagen-Poiseuille", case, 1e-11, 0)
            if Re > 4000:
                sub.outcome("turbulent")
                f = p.f_tr_Colebrook(Re, 1e-4 * D, D)
                sub.expect(f > p.f_l(Re), "chain/turbulent", "turbulent friction %r below laminar" % f, case)
            else:
                sub.outcome("laminar")
        sub.state(("chain", D, v, nu, rho, L))
        sub.trace(case)


def histories(sub, item):
    from auxi.tools.transportphenomena.fluidflow import pressuredrop as p
    calls = [(f, a) for f, args in (("f_l", [(1e3,), (1.0,)]), ("f_ts", [(1e5,), (1e7,)]),
                                    ("f_tr_Haaland", [(1e5, 1e-3, 1.0, False), (1e7, 0.0, 0.2, False)]),
                                    ("f_tr_Colebrook", [(1e5, 1e-3, 1.0), (1e7, 0.0, 0.2), (1e8, 1e-6, 0.1)])) for a in args]
    fresh = [getattr(p, f)(*a) for f, a in calls]
    for h in itertools.product(range(len(calls)), repeat=item):
        for i in h:
            sub.step()
            f, a = calls[i]
            v = getattr(p, f)(*a)
            sub.expect(v == fresh[i], "history", "%s%r = %r after %r, first %r" % (f, a, v, h, fresh[i]), h)
        sub.state(h)
        sub.trace(h)


def number_kinds(sub, n):
    from auxi.tools.transportphenomena.fluidflow import pressuredrop as p
    from auxi.tools.transportphenomena import dimensionlessquantities as dq
    from mc import kinds
    calls = [(dq.Pr, 2), (dq.Re, 3), (dq.Nu, 3), (dq.Sh, 3), (p.D_h, 2), (getattr(p, "\u0394p"), 5)]
    for f, k in calls:
        for args in itertools.product((1, 2, 7), repeat=min(k, 3)):
            kinds.same(sub, "numbers/" + f.__name__, f, args + (3,) * (k - len(args)), mixed=k <= 3)
    for L, Ts, Tf, a, b, c in itertools.product((1, 2), (400, 301), (300,), (1, 3), (2,), (1, 5)):
        kinds.same(sub, "numbers/Ra", dq.Ra, (L, Ts, Tf, a, b, c), mixed=False)
        kinds.same(sub, "numbers/Gr", lambda L, Ts, Tf, b, n: dq.Gr(L, Ts, Tf, b, n, G), (L, Ts, Tf, b, c), mixed=False)
    for R in (10, 2000, 4000, 10 ** 5, 10 ** 8):
        kinds.same(sub, "numbers/f_l", p.f_l, (R,))
        kinds.same(sub, "numbers/f_ts", p.f_ts, (R,))
        for e, D in ((0, 1), (1, 100), (1, 25)):
            kinds.same(sub, "numbers/Haaland", lambda R, e, D: p.f_tr_Haaland(R, e, D, False), (R, e, D))
            if R >= 4000:
                kinds.same(sub, "numbers/Colebrook", p.f_tr_Colebrook, (R, e, D))


def run(chk):
    q = chk.quick
    chk.parallel(groups, [(L, 21 if q else 81) for L in (1e-3, 0.1, 1.0, 7.0, 250.0)])
    rough = [0.0] + geom(1e-7, 0.05, 40 if q else 160) + [0.05, 0.0500001, 0.06, 0.2]
    rough = sorted(set(rough))
    Res = geom(1e3, 1e9, 151 if q else 601) + [3999.0, 4000.0, 4001.0, 99999999.0, 1e8, 100000001.0, 10.0, 500.0]
    chk.parallel(friction, [(R, rough) for R in Res])
    chk.parallel(drops, [(f, 8 if q else 16) for f in (0.005, 0.02, 0.316, 64.0)])
    chk.parallel(chains, [(D, 41 if q else 121) for D in (0.002, 0.05, 1.0)])
    number_kinds(chk, 0)
    chk.parallel(histories, [2, 3] if q else [2, 3, 4])
    chk.bounds = dict(reynolds_numbers=len(Res), roughnesses=len(rough), history_depth=3 if q else 4)
    chk.assumptions = ["explicit and implicit turbulent friction factors agree within 3.5 % for 4000 <= Re <= 1e8 and roughness up to 5 %, smooth ones for 1e4 <= Re <= 1e7"]
