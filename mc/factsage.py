"""Writes well-formed FactSage text files and their independent meaning."""
from mc import cpdata

EXPS = [0.0, 1.0, -2.0, 2.0, -0.5, -1.0, 0.5, -3.0]
COEF = [(24.5, 31.0, 298.0, 19.25), (1.5e-3, -2.0e-3, 298.0e-6, 8e-4), (-3.5e5, 2.0e5, -1.0e4, 298.0),
        (1.0e-6, -1.5e-6, 2.0e-7, 5e-7), (-120.0, 55.0, 10.0, 3.0), (500.0, -298.0, 40.0, 70.0), (0.25, 0.5, 0.125, 0.75), (1e7, 2e7, -1e7, 298.0)]
EDGES = (298.15, 700.0, 1100.5, 1825.0, 2600.0, 2700.5, 2850.0, 3000.0, 3100.25, 3333.0, 3400.0, 3512.0, 3600.5, 3777.0, 3900.0)
NUM = {"plain": lambda v: "%.8f" % v, "sci": lambda v: "%.7E" % v, "short": lambda v: "%g" % v}


def build(formula, shape, numbering="restart", style="plain", sep=" ", tmin="298", headers=2, blanks=False, trail="",
          firstline="name", names=None, nl="\n", end="_" * 60, nonl=False, zero=()):
    """shape: per phase a tuple with the number of terms of each record; zero: the terms, counted through the
    file, with coefficient zero. Returns (text, CompoundRef)."""
    fmt = NUM[style]
    names = names or ("S1", "S2", "L1", "G1")
    lines = [{"name": " %s  a compound name" % formula, "bare": " %s" % formula, "label": "Compound: %s" % formula,
              "blank": " %s " % formula}[firstline]]
    lines += [" header line %d  1  298 - 900" % i for i in range(headers)]
    lines.append("_" * 70)
    phases = {}
    serial = count = 0
    for pi, recs in enumerate(shape):
        name = names[pi]
        dh, s = (-200000.0 - 1000.0 * pi, 45.0 + 5 * pi) if pi != 1 else (298.0, 298.0)
        recs_ref = []
        for ri, n in enumerate(recs):
            serial += 1
            rec = str(ri + 1) if numbering == "restart" else str(serial)
            lo, hi = EDGES[ri], EDGES[ri + 1] + 10.0 * pi * (ri + 1 == len(recs))
            lo_t = tmin if ri == 0 else "%.2f" % lo
            terms = [(float(fmt(COEF[(k + ri) % 8][(pi + ri) % 4])), EXPS[(k + ri) % 8]) for k in range(n)]
            terms = [(0.0 if count + k in zero else c, e) for k, (c, e) in enumerate(terms)]
            count += n
            for i in range(0, n, 2):
                part = [name, rec]
                if ri == 0 and i == 0:
                    part += [fmt(dh), fmt(s)]
                for c, e in terms[i:i + 2]:
                    part += [fmt(c), "%.1f" % e if style != "short" else "%g" % e]
                part += [lo_t, "-", "%.2f" % hi]
                lines.append(sep.join(part) + trail)
            recs_ref.append((lo, hi, terms))
            if blanks:
                lines.append("")
        phases[name] = cpdata.PhaseRef(float(fmt(dh)), float(fmt(s)), recs_ref)
    if end:
        lines.append(end)
        lines.append("notes after the data S1 1 5.0 5.0 298 - 900")
    return nl.join(lines) + ("" if nonl else nl), cpdata.CompoundRef(formula, phases)
