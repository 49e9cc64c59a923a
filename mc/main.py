"""Child process: import the check module for one property, explore, write the evidence."""
import os, sys, importlib, traceback, resource


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    from mc import core
    chk = core.Check(pid, tier, only=only)
    os.chdir(chk.scratch)
    modname = "mc.checks." + pid.lower()
    try:
        mod = importlib.import_module(modname)
    except ModuleNotFoundError as e:
        if e.name == modname:
            print("no check for", pid)
            sys.exit(3)
        chk.fail("import", "the check could not import the code under test: " + traceback.format_exc(), None)
        sys.exit(chk.finish())
    except BaseException:
        chk.fail("import", "the check could not import the code under test: " + traceback.format_exc(), None)
        sys.exit(chk.finish())
    try:
        mod.run(chk)
    except core.Enough:
        pass
    except BaseException:
        chk.fail("exception", "unexpected exception while exploring: " + traceback.format_exc(), None)
    sys.exit(chk.finish())


if __name__ == "__main__":
    main()
