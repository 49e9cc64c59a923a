#!/usr/bin/env python3
"""Runs every planted bug (or those named) against the check of its property in a scratch copy of /repo and
rewrites the table in DESIGN.md. Usage: tools/seeds.py [--all-checks] [id...]"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(HERE + "/seeded"))


def one(i):
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/r"], check=True)
        if subprocess.run(["git", "-C", tmp + "/r", "apply", d + "/patch.diff"]).returncode:
            return i, meta, "patch does not apply"
        p = subprocess.run([HERE + "/run.sh", meta["property"], "quick"], capture_output=True, text=True,
                           env=dict(os.environ, AUXI_REPO=tmp + "/r", MC_OUT=tmp))
        hit = re.search("VIOLATION property=%s " % meta["property"], p.stdout) and p.returncode == 1
        return i, meta, "caught" if hit else "missed (%d)" % p.returncode
    finally:
        shutil.rmtree(tmp)


with cf.ThreadPoolExecutor(3) as ex:
    rows = {i: (m, r) for i, m, r in ex.map(one, ids)}
for i in sorted(rows):
    print(i, rows[i][1])
f = HERE + "/DESIGN.md"
s = open(f).read()
old = dict(re.findall(r"^\| (\S+) \| .*? \| ([^|]*) \|$", s[s.index("<!-- seeds -->"):], re.M))
table = ["| planted bug | check | needs | result |", "|---|---|---|---|"]
for i in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    r = rows[i][1] if i in rows else old.get(i, "not run")
    table.append("| %s | %s | %s | %s |" % (i, m["property"], " ".join(m["needs"].split()).replace("|", "/"), r))
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(table) + "\n<!-- /seeds -->", s, flags=re.S)
open(f, "w").write(s)
