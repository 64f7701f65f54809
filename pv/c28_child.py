"""A process that runs steps in surroundings of the case's choosing.

Started with generated interpreter options, without protosym.  Each request is
answered by a fork that sets up the surroundings, imports protosym and performs
the steps: {"texts": [...], "changed": [...], "loaded": [...]}.
"""

from __future__ import annotations

import json
import os
import shutil
import sys
import tempfile
import traceback

REPO_SRC = os.environ.get("PV_REPO_SRC", "/repo/src")
PACKAGES = ["sympy", "numpy", "llvmlite"]


def observe(where):
    """Everything around that an operation on expressions has no business with."""
    import decimal
    import gc
    import locale
    import logging
    import random
    import signal
    import threading
    import warnings

    root = logging.getLogger()
    out = {
        "recursion limit": sys.getrecursionlimit(),
        "digits limit": sys.get_int_max_str_digits(),
        "switch interval": sys.getswitchinterval(),
        "sys.path": list(sys.path),
        "import hooks": [repr(type(m)) for m in sys.meta_path] + [str(len(sys.path_hooks))],
        "warning filters": repr(warnings.filters),
        "threads": threading.active_count(),
        "current directory": os.getcwd(),
        "environment": dict(os.environ),
        "signal handlers": [repr(signal.getsignal(s)) for s in (
            signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGALRM, signal.SIGSEGV)],
        "alarm": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        "random state": hash(random.getstate()),
        "decimal context": repr(decimal.getcontext()),
        "collector": [gc.isenabled(), gc.get_threshold(), gc.get_debug()],
        "locale": locale.setlocale(locale.LC_ALL),
        "hooks": [id(sys.displayhook), id(sys.excepthook), id(sys.unraisablehook),
                  repr(sys.gettrace()), repr(sys.getprofile())],
        "warning hook": id(warnings.showwarning),
        "logging": [root.level, [repr(h) for h in root.handlers], root.manager.disable,
                    root.disabled, id(logging.lastResort), id(logging.getLoggerClass()),
                    id(logging.getLogRecordFactory())],
        "streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        "builtins": sorted(k for k in vars(__import__("builtins")) if k != "_"),
        "files": sorted(os.listdir(where)),
        "umask": umask(),
        "open files": len(os.listdir("/proc/self/fd")),
        "children": children(),
    }
    for n, name in ((1, "printed"), (2, "printed (errors)")):
        (sys.stdout, sys.stderr)[n - 1].flush()
        out[name] = os.fstat(n).st_size
    return out


def inside():
    """The settings of the optional packages, as far as they are loaded."""
    out = {}
    np = sys.modules.get("numpy")
    if np is not None:
        out["numpy settings"] = [np.geterr(), np.geterrcall(), np.get_printoptions(),
                                 hash(np.random.get_state()[1].tobytes())]
    if sys.modules.get("sympy") is not None:
        import sympy
        from sympy.core.parameters import global_parameters as g

        x = sympy.Symbol("x")
        out["sympy settings"] = [g.evaluate, g.distribute, g.exp_is_pow, str(x + x),
                                 repr(sympy.sqrt(8)), sympy.Symbol("x") is x,
                                 str(sympy.Basic.__str__(2 * x)), len(x.assumptions0)]
    if sys.modules.get("llvmlite") is not None:
        from llvmlite import ir

        out["llvmlite settings"] = [repr(ir.Context), len(ir.context.global_context.scope.
                                                         _basenamemap)]
    return {k: str(v) for k, v in out.items()}


def umask():
    old = os.umask(0o22)
    os.umask(old)
    return old


def children():
    with open(f"/proc/self/task/{os.getpid()}/children") as fh:
        return fh.read()


def answer(case):
    """In a fork: the steps in the surroundings of the case."""
    where = tempfile.mkdtemp(prefix="pv-c28-")
    try:
        os.chdir(where)
        with tempfile.TemporaryFile() as o, tempfile.TemporaryFile() as e:
            os.dup2(o.fileno(), 1)
            os.dup2(e.fileno(), 2)
            return work(case, where)
    finally:
        os.chdir("/")
        shutil.rmtree(where, ignore_errors=True)


def work(case, where):
    import decimal
    import gc
    import random
    import threading

    decimal.getcontext().prec = case["digits"]
    random.seed(case["digits"])
    if case["collector"] == 0:
        gc.disable()
    elif case["collector"] == 1:
        gc.set_threshold(3, 2, 2)
    for n, name in enumerate(PACKAGES):
        if case["absent"] >> n & 1:
            sys.modules[name] = None
    sys.path.insert(0, REPO_SRC)
    first = observe(where)
    import protosym.simplecas  # noqa

    second = observe(where)
    changed = [f"importing changed the {k}: {short(first[k])} to {short(second[k])}"
               for k in first if first[k] != second[k] and k not in ("open files",)]
    loaded = [p for p in PACKAGES if sys.modules.get(p) is not None]
    result = {}

    def run():
        result["texts"] = perform_all(case, where, changed, loaded)

    if case["thread"]:
        err = []

        def main():
            try:
                run()
            except BaseException:  # noqa
                err.append(traceback.format_exc())

        t = threading.Thread(target=main)
        t.start()
        t.join()
        if err:
            raise RuntimeError(err[0])
    else:
        run()
    return {"texts": result["texts"], "changed": changed, "loaded": loaded}


def perform_all(case, where, changed, loaded):
    from pv import c28
    from pv.build import reals
    from pv.c24 import Ctx, as_text
    from pv.model import Cas

    cas = Cas()
    pool = reals(cas, case["prog"])
    ctx = Ctx(cas, pool)
    texts = []
    for n, step in enumerate(case["steps"]):
        if n == case["present_from"]:
            for name in PACKAGES:
                if name in sys.modules and sys.modules[name] is None:
                    del sys.modules[name]
        if step[3] % 3:
            # (at times the operation is the first to load what it needs)
            for name in sorted(c28.needs(step)):
                try:
                    __import__(name)
                except ImportError:
                    pass
        before, within = observe(where), inside()
        text = as_text(c28.perform(ctx, step))
        after, then = observe(where), inside()
        texts.append(text)
        changed += [f"{step} changed the {k}: {short(within[k])} to {short(then[k])}"
                    for k in within if within[k] != then.get(k)]
        if not c28.needs(step):
            changed += [f"{step} changed the {k}: {short(before[k])} to {short(after[k])}"
                        for k in before if before[k] != after[k]]
            now = [p for p in PACKAGES if sys.modules.get(p) is not None]
            if not any(c28.needs(s) for s in case["steps"][:n]):
                loaded += [f"{p} by {step}" for p in now if p not in loaded]
    return texts


def short(x):
    return str(x)[:150]


def main():
    # before forking, what protosym may import of the standard library
    import ctypes, dataclasses, decimal, fractions, functools, gc, inspect  # noqa
    import locale, logging, math, numbers, operator, random, signal, struct, threading, typing  # noqa
    import warnings, weakref, collections.abc, copy, contextlib, itertools, enum  # noqa

    from pv import c24, c28, steps  # noqa

    out = os.dup(1)
    for line in sys.stdin:
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                res = answer(json.loads(line))
            except BaseException:  # noqa
                res = {"error": traceback.format_exc()[-3000:]}
            data = (json.dumps(res) + "\n").encode()
            while data:
                data = data[os.write(out, data):]
            os._exit(code)
        _, status = os.waitpid(pid, 0)
        if status:
            os.write(out, (json.dumps({"error": f"ended with {status}"}) + "\n").encode())


if __name__ == "__main__":
    main()
