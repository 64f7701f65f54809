"""Run one sub-check: generate cases with Hypothesis, judge, shrink, record."""

from __future__ import annotations

import gc
import hashlib
import json
import os
import re
import sys
import time
import traceback

from . import boot, steps
from .base import Rec, StepBudgetExceeded, Violation, case_key, short

SLOW = os.environ.get("PV_SLOW")  # log cases that take longer (seconds)

PROPS = [f"C{n:02d}" for n in range(1, 27)]


class HarnessError(Exception):
    """Something went wrong that does not incriminate the code under test."""


def load(prop):
    import importlib

    return importlib.import_module(f"pv.{prop.lower()}")


def get_sub(mod, name):
    for s in mod.SUBS:
        if s.name == name:
            return s
    raise KeyError(name)


# what Python says when an object of protosym does not know an operation (its methods
# may have returned NotImplemented, so that no frame of theirs is left)
UNKNOWN = re.compile(
    r"'(Expr|Expr\w+|Sym\w*|Tree|Atom|AtomType|Matrix|\w*Evaluator|Transformer|SubsFunc|"
    r"Py\w+|Head\w+)'( object (is not|has no)| and '| cannot be|$)|and '(Expr|Tree|Matrix)'")


def _touches_repo(exc):
    """Does the traceback (or that of a cause) pass through protosym code?"""
    if isinstance(exc, (TypeError, AttributeError)) and UNKNOWN.search(str(exc)):
        return True
    prefix = boot.REPO_SRC.rstrip("/") + "/protosym/"
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(prefix):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


def execute(sub, case, rec, known=()):
    """Run one case. Raises Violation or HarnessError. Returns step count."""
    rec.start()
    steps.begin(sub.budget)
    try:
        sub.run(case, rec)
    except Violation as v:
        steps.end()
        if v.finding is not None and v.finding in known:
            rec.known[v.finding] = rec.known.get(v.finding, 0) + 1
            rec.finish()
            return steps.count()
        raise
    except StepBudgetExceeded:
        steps.end()
        raise Violation(
            f"not finished after {sub.budget} steps inside protosym "
            "(endless loop or explosive work)"
        ) from None
    except HarnessError:
        raise
    except (Exception, RecursionError) as e:
        steps.end()
        if _touches_repo(e):
            tb = traceback.format_exception(e)
            text = "".join(tb)
            raise Violation(
                f"unexpected {type(e).__name__}: {short(str(e))}\n{text[-1800:]}"
            ) from None
        raise HarnessError("".join(traceback.format_exception(e))[-3000:]) from None
    finally:
        n = steps.end()
    rec.finish()
    rec.maximum("max_steps_in_one_case", n)
    return n


def prepare(prop):
    sys.setrecursionlimit(1000)
    if prop == "C03":
        from . import sched

        sched.patch_locks()
    boot.boot()
    boot.import_all()
    mod = load(prop)
    steps.install()
    gc.collect()
    gc.freeze()
    return mod


class CaseFile:
    """The current case, on disk, in case the process dies running it."""

    def __init__(self, path):
        self.fd = os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)

    def write(self, data):
        data = data.encode()
        os.pwrite(self.fd, data, 0)
        os.ftruncate(self.fd, len(data))


def run_shard(prop, subname, seed, shard, n, known, outpath):
    """Generate and run n cases; write the result as JSON to outpath."""
    t0 = time.monotonic()
    mod = prepare(prop)
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    from hypothesis.errors import Flaky
    from hypothesis.internal.conjecture import engine as hengine

    hengine.MAX_SHRINKING_SECONDS = 60

    sub = get_sub(mod, subname)
    rec = Rec()
    keys = set()
    samples = []
    res = {"sub": subname, "shard": shard, "status": "ok", "evaluations": 0}
    failures = []
    errors = []
    casefile = CaseFile(outpath + ".case")
    if sub.setup:
        sub.setup()
    digest = hashlib.sha256(f"{seed}/{prop}/{subname}/{shard}".encode()).digest()
    intseed = int.from_bytes(digest[:8], "big")

    def one(case):
        text = json.dumps(case)
        casefile.write(text)
        case = json.loads(text)
        if not failures and not errors:
            res["evaluations"] += 1
        t1 = time.monotonic()
        try:
            execute(sub, case, rec, known)
            if SLOW and time.monotonic() - t1 > float(SLOW):
                print(f"{time.monotonic() - t1:.1f} s: {text[:3000]}", file=sys.stderr, flush=True)
        except Violation as v:
            failures.append((len(text), text, v.message))
            if len(failures) > 50:
                failures.sort()
                del failures[40:]
            raise
        except HarnessError as e:
            errors.append((text, str(e)))
            raise
        if rec.nontrivial:
            k = case_key(case)
            if k not in keys:
                keys.add(k)
                nk = len(keys)
                if nk in (3, 30, 300, 3000):
                    samples.append(str(short(text, 900)))

    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        phases=[Phase.generate, Phase.shrink],
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=[
            HealthCheck.too_slow,
            HealthCheck.data_too_large,
            HealthCheck.large_base_example,
        ],
    )(hseed(intseed)(given(sub.strategy())(one)))
    gc.collect()
    gc.freeze()
    try:
        test()
    except (Violation, HarnessError):
        pass
    except Flaky:
        if not failures and not errors:
            errors.append(("", traceback.format_exc()[-3000:]))
    except Exception:
        if not failures:
            errors.append(("", traceback.format_exc()[-3000:]))
    if failures:
        failures.sort()
        res["status"] = "violation"
        res["failures"] = [
            {"case": json.loads(t), "message": m} for _, t, m in failures[:5]
        ]
    elif errors:
        res["status"] = "error"
        res["error"] = errors[0][1]
        res["error_case"] = str(short(errors[0][0], 3000))
    res["labels"] = rec.labels
    res["notes"] = rec.notes
    res["known"] = rec.known
    res["keys"] = sorted(keys)
    res["samples"] = samples
    res["wall_s"] = round(time.monotonic() - t0, 2)
    _dump(res, outpath)


def run_list(prop, items, known, outpath):
    """Run given (sub, case) pairs: the saved cases of the corpus."""
    t0 = time.monotonic()
    mod = prepare(prop)
    rec = Rec()
    res = {"sub": "corpus", "shard": 0, "status": "ok", "evaluations": 0}
    casefile = CaseFile(outpath + ".case")
    keys = set()
    for item in items:
        sub = get_sub(mod, item["sub"])
        casefile.write(json.dumps(item["case"]))
        if sub.setup:
            sub.setup()
        res["evaluations"] += 1
        try:
            execute(sub, item["case"], rec, known)
            if rec.nontrivial:
                keys.add(case_key(item["case"]))
        except Violation as v:
            res["status"] = "violation"
            res["failures"] = [
                {"case": item["case"], "message": v.message, "sub": item["sub"]}
            ]
            break
        except HarnessError as e:
            res["status"] = "error"
            res["error"] = str(e)
            res["error_case"] = str(short(json.dumps(item), 2000))
            break
    res["labels"] = rec.labels
    res["notes"] = rec.notes
    res["known"] = rec.known
    res["keys"] = sorted(keys)
    res["samples"] = []
    res["wall_s"] = round(time.monotonic() - t0, 2)
    _dump(res, outpath)


def _dump(res, outpath):
    with open(outpath + ".tmp", "w") as fh:
        json.dump(res, fh)
    os.replace(outpath + ".tmp", outpath)


def replay(prop, subname, case, known=()):
    """Run one saved case. Returns (status, message)."""
    mod = prepare(prop)
    sub = get_sub(mod, subname)
    if sub.setup:
        sub.setup()
    rec = Rec()
    for _ in range(sub.attempts):
        try:
            execute(sub, case, rec, known)
        except Violation as v:
            return "violation", v.message
        except HarnessError as e:
            return "error", str(e)
    if rec.known:
        return "known", ", ".join(rec.known)
    return "ok", ""
