"""Independent reading of chemical formulas: periodic table, expansion and recognition."""

# Standard atomic masses [kg/kmol]; for elements without stable isotopes the mass number of a
# long-lived isotope (compared with a wide tolerance, conventions differ).
ATOMIC = {}
for _t in """H 1.00794 He 4.002602 Li 6.941 Be 9.0121831 B 10.811 C 12.0107 N 14.0067 O 15.9994 F 18.998403
Ne 20.1797 Na 22.989769 Mg 24.305 Al 26.981539 Si 28.0855 P 30.973762 S 32.065 Cl 35.453 Ar 39.948 K 39.0983
Ca 40.078 Sc 44.955908 Ti 47.867 V 50.9415 Cr 51.9961 Mn 54.938044 Fe 55.845 Co 58.933194 Ni 58.6934 Cu 63.546
Zn 65.38 Ga 69.723 Ge 72.63 As 74.921595 Se 78.971 Br 79.904 Kr 83.798 Rb 85.4678 Sr 87.62 Y 88.90584 Zr 91.224
Nb 92.90637 Mo 95.95 Ru 101.07 Rh 102.9055 Pd 106.42 Ag 107.8682 Cd 112.414 In 114.818 Sn 118.71 Sb 121.76
Te 127.6 I 126.90447 Xe 131.293 Cs 132.905452 Ba 137.327 La 138.90547 Ce 140.116 Pr 140.90766 Nd 144.242 Sm 150.36
Eu 151.964 Gd 157.25 Tb 158.92535 Dy 162.5 Ho 164.93033 Er 167.259 Tm 168.93422 Yb 173.054 Lu 174.9668 Hf 178.49
Ta 180.94788 W 183.84 Re 186.207 Os 190.23 Ir 192.217 Pt 195.084 Au 196.966569 Hg 200.592 Tl 204.38 Pb 207.2
Bi 208.9804 Th 232.0377 Pa 231.03588 U 238.02891""".replace("\n", " ").split(" ")[::1], :
    for _i in range(0, len(_t), 2):
        ATOMIC[_t[_i]] = float(_t[_i + 1])
RADIO = dict(Tc=98, Pm=145, Po=209, At=210, Rn=222, Fr=223, Ra=226, Ac=227, Np=237, Pu=244, Am=243, Cm=247, Bk=247,
             Cf=251, Es=252, Fm=257, Md=258, No=259, Lr=262, Rf=261, Db=262, Sg=266, Bh=264, Hs=269, Mt=268, Ds=271,
             Rg=272)
SYMBOLS = set(ATOMIC) | set(RADIO)


class Bad(Exception):
    pass


def _number(s, i):
    j = i
    while j < len(s) and s[j] in "0123456789":
        j += 1
    return (int(s[i:j]) if j > i else None), j


def _group(s, i):
    """One or more of El[n] and (group)[n] from position i."""
    counts, n = {}, 0
    while i < len(s):
        c = s[i]
        if "A" <= c <= "Z":
            j = i + 1
            while j < len(s) and "a" <= s[j] <= "z":
                j += 1
            part = {s[i:j]: 1}
            if s[i:j] not in SYMBOLS:
                raise Bad("unknown element")
        elif c == "(":
            part, j = _group(s, i + 1)
            if j >= len(s) or s[j] != ")":
                raise Bad("unclosed group")
            j += 1
        else:
            break
        k, i = _number(s, j)
        for e, v in part.items():
            counts[e] = counts.get(e, 0) + v * (1 if k is None else k)
        n += 1
    if not n:
        raise Bad("empty group")
    return counts, i


def atoms(formula):
    """{element: atoms} of a formula, or Bad."""
    s = formula.strip()
    counts, i = _group(s, 0)
    if i < len(s) and s[i] == ".":
        k, i = _number(s, i + 1)
        more, i = _group(s, i)
        for e, v in more.items():
            counts[e] = counts.get(e, 0) + v * (1 if k is None else k)
    if i < len(s) and s[i] == "[":
        j = s.find("]", i)
        if j < 0 or j == i + 1 or not all(c.isascii() and c.isalnum() for c in s[i + 1:j]):
            raise Bad("bad phase")
        i = j + 1
    if i != len(s):
        raise Bad("trailing text")
    return counts


def support(counts):
    return {e for e, n in counts.items() if n}
