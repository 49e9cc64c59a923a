"""Parent process of one check: runs the explorer in a child with its own scratch directory
and turns every ending of the child into exit 0, or exit 1 with a VIOLATION line.

The parent never imports the code under test, so nothing that code does (endless loop, hard
crash, sys.exit) can suppress the verdict.
"""
import os, sys, json, shutil, subprocess, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("MC_OUT", HERE)          # evidence and replays


def main():
    if len(sys.argv) < 2:
        print("usage: run.sh <property> [quick|thorough] [--only KEY]")
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else \
        os.environ.get("VERIF_TIER", "quick")
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    env = dict(os.environ)
    env["MC_SCRATCH"] = scratch
    env["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")
    env["HOME"] = scratch
    env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    limit = 780 if tier == "quick" else 6 * 3600
    cmd = [sys.executable, "-B", "-m", "mc.main", pid, tier] + \
        [a for a in sys.argv[2:] if a not in ("quick", "thorough")]
    t0 = time.time()
    try:
        proc = subprocess.Popen(cmd, cwd=HERE, env=env, start_new_session=True)
        try:
            rc = proc.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(proc.pid, 9)
            proc.wait()
            rc = "timeout"
        if rc in (0, 1):
            return rc
        if rc == 3:                       # explicit harness error (bad arguments)
            return 2
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        rp = os.path.join("replays", "%s-abort.json" % pid)
        with open(os.path.join(OUT, rp), "w") as f:
            json.dump(dict(property=pid, tier=tier, ended=str(rc),
                           why="the explorer process did not finish: hang or hard crash in the code under test",
                           rerun="./run.sh %s %s" % (pid, tier)), f, indent=1)
        ev = os.path.join(OUT, "evidence", pid + ".json")
        os.makedirs(os.path.dirname(ev), exist_ok=True)
        with open(ev, "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
                           level="other", coverage=dict(explanation="explorer ended with %s" % rc),
                           wall_s=time.time() - t0, violations=1), f)
        print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
