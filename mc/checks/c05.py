"""C05: a bibliography database gives exactly the entries of its file.

Files are generated from data: entry types x keys x fields x values x ways of writing them, one to three
entries in every order; the database must give back the data, entry by entry, and refuse other keys.
"""
import itertools, os
from mc import core

TYPES = ("book", "article", "report", "online", "misc", "inproceedings", "thesis", "phdthesis", "software", "dataset", "patent", "Report", "standard", "techreport", "manual")
KEYS = ("lienhard2015", "a", "nist2018-constants", "Key_1", "x:y", "1990a", "A", "k.b", "a+b")
VALUES = ("A title", "T. A. Davidson and J. Lienhard IV", "2011", "2018-07-15", "Y.A. \\c{C}engel", "{NASA} reports", "a, b = c", "http://x.org/a_b?c=1&d=%20#e", "Ünïcode Ω – 日本",
          "me@x.org", "50 % of {a {nested} one}", "a" * 400, "semi; colon: 'single'", "month", "$x_1^2$ \\& more", "a #1 b", "first line\n\t\tsecond line", "1 {two\nthree}", "0", "entry, of, commas,")
FIELDS = ("author", "title", "date", "year", "url", "note", "ibsn", "type", "urldate", "x-custom")

# ways of writing an entry: (indent, around the equals sign, quote, trailing comma, closing)
STYLES = (("\t", " = ", "{}", True, "\n}\n"), ("  ", "=", '""', False, "\n}\n"), ("", " =  ", "{}", False, "}\n"), ("    ", " = ", '""', True, "\n}"))
GAPS = ("\n\n", "\n", "\n% between\n", "\nfree text between the entries\n", "\n@comment{nothing, at = {all}}\n")


def text(entry, style):
    typ, key, fields = entry
    ind, eq, q, last, close = style
    lines = []
    for n, v in fields.items():
        a, b = ("{", "}") if '"' in v else q
        lines.append(ind + n + eq + a + v + b)
    return "@%s{%s,\n%s%s%s" % (typ, key, ",\n".join(lines), "," if last else "", close)


def write(path, entries, style, gap="\n\n", lead="", tail="", nl="\n"):
    with open(path, "w", encoding="utf-8", newline=nl) as f:
        f.write(lead + gap.join(text(e, style) for e in entries) + tail)


def compare(chk, db, entries, key, case):
    for typ, k, fields in entries:
        try:
            got = db[k]
        except Exception as e:
            chk.fail(key + "/missing", "%s of type %s is not in the database (%s)" % (k, typ, type(e).__name__), case)
            continue
        want = dict(fields, ENTRYTYPE=typ.lower(), ID=k)
        # in a value of several lines, white space is not significant in BibTeX
        same = isinstance(got, dict) and set(got) == set(want) and all(isinstance(v, str) and (v.split() == want[n].split() if "\n" in want[n] else v == want[n]) for n, v in got.items())
        chk.expect(same, key + "/entry", lambda: "%r instead of %r" % (got, want), case)
        chk.expect(k in str(db), key + "/text", "%s is not in the text of the database" % k, case)
    have = {k for _, k, _ in entries}
    for k in KEYS + ("absent", "", "lienhard", "lienhard2015 ", "LIENHARD2015", None, 0):
        if k in have:
            continue
        try:
            got = db[k]
        except KeyError:
            chk.outcome("absent key")
        except Exception as e:
            chk.fail(key + "/absent", "key %r: %s" % (k, type(e).__name__), case)
        else:
            chk.fail(key + "/absent", "key %r gives %r" % (k, got), case)


def work(chk, item):
    from auxi.core.bibliography import Database
    kind, arg = item
    p = os.path.join(chk.scratch, "b%d.bib" % os.getpid())

    def one(entries, style, key, **kw):
        case = dict(entries=entries, style=STYLES.index(style), **kw)
        with chk.guard(key, case):
            write(p, entries, style, **kw)
            before = open(p, "rb").read()
            db = Database(p)
            chk.step()
            compare(chk, db, entries, key, case)
            chk.expect(open(p, "rb").read() == before, key + "/file", "reading changed the file", case)
            chk.state(before)
            chk.trace(case)

    if kind == "values":
        for f, v in itertools.product(FIELDS, VALUES):
            one([(arg, "lienhard2015", {f: v})], STYLES[(len(v) + len(f)) % len(STYLES)], "values")
        for s in STYLES:
            for k in KEYS:
                for nl in ("\n", "\r\n"):
                    one([(arg, k, dict(zip(FIELDS, VALUES)))], s, "keys", nl=nl)
    elif kind == "entries":
        other = [("book", "A", {"title": "first"}), (arg, "a", {"title": "second", "note": "n"}), ("online", "x:y", {"url": "http://x.org", "title": "third"}), ("article", "Key_1", {"author": "x", "title": "first"})]
        for n in range(0, 4):
            for es in itertools.permutations(other, n):
                for i, gap in enumerate(GAPS):
                    one(list(es), STYLES[(n + i) % len(STYLES)], "entries", gap=gap, lead=("", "\n", "% head\n")[i % 3], tail=("", "\n\n")[i % 2])
                    one(list(es), STYLES[(n + i) % len(STYLES)], "entries", gap=gap, lead=("", "\n", "% head\n")[(n + i) % 3], nl="\r\n")
    else:
        # many entries, and several databases alive at the same time
        for n in (10, 40):
            es = [(TYPES[(i + arg) % len(TYPES)], "key%03d" % i, {FIELDS[(i + j) % len(FIELDS)]: VALUES[(i * 7 + j) % len(VALUES)] for j in range(1 + i % 5)}) for i in range(n)]
            one(es, STYLES[arg % len(STYLES)], "many")
        e = [("book", "a", {"title": "of the first"}), ("report", "b", {"title": "only in the first"})]
        f = [("online", "a", {"title": "of the second", "note": "x"}), ("misc", "c", {"title": "only in the second"})]
        for order in itertools.product((e, f, []), repeat=3):
            case = dict(order=["e" if o is e else "f" if o is f else "-" for o in order])
            with chk.guard("several", case):
                dbs = []
                for i, es in enumerate(order):
                    q = p if i % 2 == arg % 2 else p + "2"
                    write(q, es, STYLES[arg % len(STYLES)])
                    dbs.append(Database(q))
                    chk.step()
                for d, es in list(zip(dbs, order)) * 2:
                    compare(chk, d, es, "several", case)
                chk.trace(case)
    chk.outcome(kind)


def entries_of(s):
    """The entries of a bibliography file by matching braces."""
    out, i = [], 0
    while True:
        i = s.find("@", i)
        if i < 0:
            return out
        j = s.index("{", i)
        typ = s[i + 1:j].strip().lower()
        depth, k = 1, j + 1
        while depth:
            depth += {"{": 1, "}": -1}.get(s[k], 0)
            k += 1
        body = s[j + 1:k - 1]
        key, rest = body.split(",", 1)
        fields, n = {}, 0
        while "=" in rest[n:]:
            m = rest.index("=", n)
            name = rest[n:m].strip(" \t\n,")
            a = rest.index("{", m)
            d, b = 1, a + 1
            while d:
                d += {"{": 1, "}": -1}.get(rest[b], 0)
                b += 1
            fields[name.lower()] = rest[a + 1:b - 1]
            n = b
        out.append((typ, key.strip(), fields))
        i = k


def run(chk):
    import logging
    logging.disable(logging.CRITICAL)
    import auxi.core.bibliography as bib
    p = os.path.join(os.path.dirname(bib.__file__), "data", "bibliography.bib")
    es = entries_of(open(p, encoding="utf-8").read())
    with chk.guard("shipped", p):
        chk.expect(len(es) >= 3, "shipped/few", "%d entries" % len(es), p)
        for round in range(2):
            for db in (bib.db, bib.Database(p)):
                compare(chk, db, es, "shipped", p)
                chk.step()
                chk.trace(p)
    types = TYPES
    chk.parallel(work, [("values", t) for t in types] + [("entries", t) for t in types] + [("many", i) for i in range(40 if chk.quick else 200)])
    chk.bounds["files"] = "entry types %s x %d fields x %d values x %d keys x %d styles; up to 3 of 4 entries in every order and with every gap; up to 40 entries" % (", ".join(types), len(FIELDS), len(VALUES), len(KEYS), len(STYLES))
