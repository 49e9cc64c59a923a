"""The same numbers given as other kinds of number: results are those of plain floats."""
import itertools
import numpy as np
from fractions import Fraction
from mc import core

KINDS = {"int": int, "float64": np.float64, "int64": np.int64, "float32": np.float32}


def same(chk, key, f, args, kinds=("int", "float64", "int64", "float32"), mixed=True, scale=0.0):
    """``f(*args)`` for whole-numbered args, with every assignment of kinds to the arguments (or one kind for all).

    ``scale``: size of the terms that may cancel in the result, for numbers of single precision."""
    case = dict(call=key, args=list(args))
    with chk.guard(key, case):
        want = f(*[float(a) for a in args])
    names = ("float",) + tuple(kinds)
    choices = itertools.product(names, repeat=len(args)) if mixed else [(k,) * len(args) for k in names]
    for ks in choices:
        case = dict(call=key, args=list(args), kinds=list(ks))
        with chk.guard(key, case):
            chk.step()
            got = f(*[float(a) if k == "float" else KINDS[k](a) for a, k in zip(args, ks)])
            tol = 1e-3 if "float32" in ks else 1e-11
            chk.expect(core.close(got, want, tol, tol * scale if "float32" in ks else 0.0), key, lambda: "%r with arguments of kind %r, %r with plain numbers" % (got, ks, want), case)
            chk.state((key, tuple(args), ks))
            chk.trace(case)
    chk.outcome("kinds of numbers")
