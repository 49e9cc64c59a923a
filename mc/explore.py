"""Level-synchronous explicit-state search over the real code in lock-step with a model.

A ``System`` supplies
    new()                -> (impl, model)      fresh real objects and a fresh reference model
    ops(model)           -> iterable of ops    enabled operations (JSON-able tuples), simplest first
    apply(chk, impl, model, op, hist)          executes op on both and compares the step's result
    check(chk, impl, model, hist)              invariants of the reached state
    canon(impl, model)   -> hashable           state identity; must determine all futures
Histories are replayed on fresh objects (live objects are never shared between histories).
"""
import multiprocessing, os, traceback
import numpy as np
from mc import core


def structure(root, limit=20000):
    """Everything the objects reachable from ``root`` keep, as text: objects that look alike but keep
    different things (a result remembered from an earlier query, an index, a flag) are different states."""
    import datetime, enum
    seen, out, mods = {}, [], {}

    def walk(x):
        if len(out) > limit:
            return
        if x is None or isinstance(x, (bool, int, str, bytes, enum.Enum, datetime.date, datetime.timedelta)):
            out.append(repr(x))
        elif isinstance(x, (float, np.number)):
            out.append(repr(core.canon_num(x)))
        elif isinstance(x, (list, tuple, np.ndarray)):
            out.append("[")
            for y in (x.ravel().tolist() if isinstance(x, np.ndarray) else x):
                walk(y)
            out.append("]")
        elif isinstance(x, dict):
            out.append("{")
            for k in sorted(x, key=lambda k: k if isinstance(k, str) else repr(type(k))):
                walk(k)
                walk(x[k])
            out.append("}")
        elif isinstance(x, (set, frozenset)):
            out.append("set%r" % sorted(repr(y) if isinstance(y, (str, int, float)) else type(y).__name__ for y in x))
        elif type(x).__module__.startswith("auxi") and hasattr(x, "__dict__"):
            if id(x) in seen:
                out.append("#%d" % seen[id(x)])
                return
            seen[id(x)] = len(seen)
            for c in type(x).__mro__:
                if c.__module__.startswith("auxi"):
                    mods[c.__module__, c.__qualname__] = c
            out.append(type(x).__name__ + "(")
            for k, v in sorted(vars(x).items()):
                out.append(k)
                walk(v)
            out.append(")")
        else:
            out.append(type(x).__name__)
    walk(root)
    # what the classes themselves keep
    for n, c in sorted(mods.items()):
        for k, v in sorted(vars(c).items()):
            if not k.startswith("__") and isinstance(v, (dict, list, set)):
                out.append(n[1] + "." + k)
                walk(v)
    return "".join(out)


def replay(chk, system, hist, final_check=True, observe=False):
    """``observe``: query everything after every operation, so that a result kept from an earlier
    query (memo, cache, lazily computed field) has the chance to go stale."""
    impl, model = system.new()
    if observe:
        system.check(_mute(chk), impl, model, [])
    for i, op in enumerate(hist):
        r = system.apply(chk, impl, model, op, hist[:i + 1])
        if r is not None:
            impl, model = r
        if observe and (i + 1 < len(hist) or not final_check):
            system.check(_mute(chk), impl, model, hist[:i + 1])
    if final_check:
        system.check(chk, impl, model, hist)
    return impl, model


def _mute(chk):
    return chk if isinstance(chk, _Mute) else _Mute(chk)


def _expand(chk, system, hist, key, observe=False):
    """All one-step successors of hist; returns [(digest, newhist)]."""
    out = []
    impl, model = None, None
    with chk.guard(key + ":replay", hist):
        impl, model = replay(_Mute(chk), system, hist, False, observe)
    if impl is None:
        return out
    ops = list(system.ops(model))
    first = True
    for op in ops:
        if not first:
            impl, model = replay(_Mute(chk), system, hist, False, observe)
        first = False
        h = hist + [op]
        with chk.guard(key + ":" + system.opname(op), h):
            chk.step()
            r = system.apply(chk, impl, model, op, h)
            if r is not None:
                impl, model = r
            system.check(chk, impl, model, h)
            chk.trace(h)
            c = system.canon(impl, model)
            out.append((core.digest(c), h))
    return out


class _Mute:
    """Replaying an already-checked prefix must not count or report again."""
    def __init__(self, chk):
        self._c = chk
        self.quick = chk.quick
        self.tier = chk.tier
        self.scratch = chk.scratch

    def step(self, n=1): pass
    def outcome(self, *a): pass
    def fail(self, *a): pass
    def expect(self, ok, *a): return ok
    def eq(self, *a, **k): return True
    def trace(self, *a): pass


_BFS = None


def _chunk(hists):
    parent, system, key, observe = _BFS
    sub = core.Check(parent.pid, parent.tier, only=parent.only, sub=True)
    succ = []
    try:
        for h in hists:
            succ += _expand(sub, system, h, key, observe)
    except core.Enough:
        pass
    except BaseException:
        try:
            sub.fail("exception", traceback.format_exc(), repr(hists)[:1000])
        except core.Enough:
            pass
    return sub.export(), succ


def bfs(chk, system, depth, key="history", max_states=None, procs=None, observe=False, also_observed=2):
    """Explore every history up to ``depth`` modulo state identity. Returns states seen.

    Afterwards the histories up to ``also_observed`` are explored once more with every query
    asked after every operation."""
    global _BFS
    if also_observed and not observe:
        bfs(chk, system, min(depth, also_observed), key + "-observed", max_states, procs, True)
    procs = procs or min(int(os.environ.get("MC_PROCS", "8")), os.cpu_count() or 1)
    with chk.guard(key + ":init", []):
        impl, model = system.new()
        system.check(chk, impl, model, [])
        seen = {core.digest(system.canon(impl, model))}
    frontier = [[]]
    done = 0
    for level in range(depth):
        nxt = []
        results = []
        if len(frontier) < 24 or procs <= 1:
            for h in frontier:
                nxt += _expand(chk, system, h, key, observe)
        else:
            n = max(1, min(200, len(frontier) // (procs * 4) + 1))
            chunks = [frontier[i:i + n] for i in range(0, len(frontier), n)]
            _BFS = (chk, system, key, observe)
            ctx = multiprocessing.get_context("fork")
            with ctx.Pool(procs) as pool:
                for part, succ in pool.imap(_chunk, chunks, chunksize=1):
                    chk.merge(part)
                    nxt += succ
        frontier = []
        for d, h in nxt:
            if d not in seen:
                seen.add(d)
                frontier.append(h)
        done = level + 1
        if max_states and len(seen) > max_states and done < depth and frontier:
            chk.caps.append("%s: state cap %d hit; every history of length <= %d covered" % (key, max_states, done))
            break
        if not frontier:
            break
    for d in seen:
        chk.states.add(d if isinstance(d, bytes) else core.digest(d))
    chk.bounds[key] = dict(depth_completed=done, states=len(seen), fixpoint=not frontier)
    return seen


def _family(op):
    """Operations of one verb on one object."""
    v = str(op[0]).replace("invalid_", "")
    return ("add" if v.startswith("add") else v, op[1] if len(op) > 1 else None)


_AFTER = None


def _after(sub, i):
    system, key, first, family = _AFTER
    a = first[i]
    sub_mute = _Mute(sub)
    impl, model = replay(sub_mute, system, [a], False)
    before = core.digest(system.canon(impl, model))
    fam = family(a)
    rejected, again = [], []
    for x in list(system.ops(model)):
        if family(x) != fam:
            continue
        again.append(x)
        with sub.guard(key + "-after", [a, x]):
            impl, model = replay(sub_mute, system, [a, x], False)
            if core.digest(system.canon(impl, model)) == before:
                rejected.append(x)
    for x in rejected:
        for b in again:
            h = [a, x, b]
            with sub.guard(key + "-after:" + system.opname(b), h):
                impl, model = replay(sub_mute, system, h[:2], False)
                sub.step()
                r = system.apply(sub, impl, model, b, h)
                if r is not None:
                    impl, model = r
                system.check(sub, impl, model, h)
                sub.trace(h)


def after_rejection(chk, system, key="rejected", family=None):
    """Every operation, then every one of the same verb on the same object that leaves the state as it was (a rejected
    one, as a rule), then every one again. A search modulo state identity does not continue from an unchanged state,
    so what a rejected operation leaves behind unseen would never show."""
    impl, model = system.new()
    first = list(system.ops(model))
    global _AFTER
    _AFTER = (system, key, first, family or getattr(system, "family", _family))
    chk.parallel(_after, range(len(first)))
    chk.bounds[key] = "%d first operations, then every one of the same verb and object without effect, then every one" % len(first)
