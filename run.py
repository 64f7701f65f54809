#!/usr/bin/env python3
"""Decide one property:  python3 run.py C07 [quick|thorough]

Exit 0: held on everything explored.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": it is broken.  Anything else is an
error of the check.  See DESIGN.md.
"""

from __future__ import annotations

import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
NPROC = int(os.environ.get("PV_PROCS", "8"))
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE}


def known_findings(prop):
    """{finding id: description} of the recorded, unrepaired findings."""
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as fh:
        for line in fh:
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def worker_env():
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPATH"] = HERE
    env["HOME"] = env.get("HOME", "/root")
    env.pop("PYTHONSTARTUP", None)
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[v] = "1"
    return env


class Job:
    def __init__(self, tmp, n, spec):
        self.n = n
        self.spec = spec
        self.base = os.path.join(tmp, f"job{n}")
        spec["out"] = self.base + ".out"
        self.proc = None

    def start(self):
        with open(self.base + ".json", "w") as fh:
            json.dump(self.spec, fh)
        self.log = open(self.base + ".log", "wb")
        self.t0 = time.monotonic()
        self.proc = subprocess.Popen(
            [PYTHON, "-m", "pv.worker", self.base + ".json"],
            cwd=os.path.dirname(self.base), env=worker_env(),
            stdin=subprocess.DEVNULL, stdout=self.log, stderr=subprocess.STDOUT,
            start_new_session=True,
        )

    def stop(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.proc.wait()

    def result(self):
        try:
            with open(self.spec["out"]) as fh:
                return json.load(fh)
        except (OSError, ValueError):
            return None

    def last_case(self):
        try:
            with open(self.spec["out"] + ".case") as fh:
                return json.load(fh)
        except (OSError, ValueError):
            return None

    def tail(self):
        try:
            with open(self.base + ".log", errors="replace") as fh:
                return fh.read()[-1500:]
        except OSError:
            return ""


def run_one(tmp, spec, name, timeout=300):
    job = Job(tmp, name, spec)
    job.start()
    try:
        rc = job.proc.wait(timeout)
    except subprocess.TimeoutExpired:
        rc = None
    job.stop()
    return rc, job.result()


def confirm(tmp, prop, sub, case, known, name):
    """Re-run a case in a fresh process: (is a violation, message)."""
    spec = {"kind": "replay", "prop": prop, "sub": sub, "case": case, "known": known}
    rc, res = run_one(tmp, spec, name)
    if rc is not None and rc < 0 and -rc in CRASH:
        return True, f"the process died with signal {-rc}"
    if res and res["status"] == "violation":
        return True, res["message"]
    return False, (res or {}).get("message", f"exit {rc}")


def describe_subs(prop):
    code = (
        "import json,sys\n"
        "from pv import boot; boot.boot()\n"
        "from pv import engine\n"
        f"m=engine.load({prop!r})\n"
        "print('@@'+json.dumps([dict(name=s.name,quick=s.quick,thorough=s.thorough,"
        "rule=s.rule,shards=s.shards) for s in m.SUBS]))\n"
    )
    p = subprocess.run(
        [PYTHON, "-c", code], env=worker_env(), cwd="/tmp",
        capture_output=True, text=True, timeout=120,
    )
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    sys.stderr.write(p.stdout[-2000:] + p.stderr[-3000:])
    raise SystemExit(2)


def main():
    t0 = time.monotonic()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = os.environ.get("PV_SUB")
    scale = float(os.environ.get("PV_SCALE", "1"))
    findings = known_findings(prop)
    known = sorted(findings)
    subs = describe_subs(prop)
    limit = 840 if tier == "quick" else 6 * 3600

    tmp = tempfile.mkdtemp(prefix="pv-")
    jobs = []
    try:
        status = drive(prop, tier, seed, subs, known, tmp, jobs, only, scale, t0, limit)
    finally:
        for job in jobs:
            if job.proc is not None and job.proc.poll() is None:
                job.stop()
        shutil.rmtree(tmp, ignore_errors=True)
    for fid in known:
        if fid in status["known"]:
            print(f"KNOWN-FINDING: property={prop} {findings[fid]}")
    write_evidence(prop, tier, seed, subs, status, t0)
    if status["violation"]:
        v = status["violation"]
        d = os.path.join(HERE, "replays", prop)
        os.makedirs(d, exist_ok=True)
        import hashlib

        h = hashlib.sha1(json.dumps(v["case"]).encode()).hexdigest()[:10]
        path = os.path.join(d, f"{v['sub']}-{h}.json")
        with open(path, "w") as fh:
            json.dump(
                {"property": prop, "sub": v["sub"], "case": v["case"],
                 "message": v["message"], "tier": tier, "seed": seed}, fh, indent=1)
        print(f"{prop}/{v['sub']}: {v['message'][:1500]}")
        print(f"case: {json.dumps(v['case'])[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if status["errors"]:
        for e in status["errors"][:3]:
            sys.stderr.write("CHECK ERROR " + (e if len(e) < 1600 else e[:300] + "\n...\n" + e[-1300:]) + "\n")
        return 2
    print(
        f"{prop} {tier}: ok, {status['evaluations']} cases, "
        f"{len(status['keys'])} distinct non-trivial, "
        f"{time.monotonic() - t0:.1f} s"
    )
    return 0


def drive(prop, tier, seed, subs, known, tmp, jobs, only, scale, t0, limit):
    st = {
        "violation": None, "errors": [], "evaluations": 0, "keys": set(),
        "samples": [], "labels": {}, "notes": {}, "known": {}, "per_sub": {},
    }
    corpus = os.path.join(HERE, "corpus", prop + ".jsonl")
    queue = []
    n = 0
    if os.path.exists(corpus) and not only:
        with open(corpus) as fh:
            items = [json.loads(line) for line in fh if line.strip()]
        queue.append(Job(tmp, n, {"kind": "list", "prop": prop, "items": items,
                                  "known": known, "sub": "corpus"}))
        n += 1
    shards = []
    for s in subs:
        if only and s["name"] != only:
            continue
        total = max(1, int(s[tier] * scale))
        ns = max(1, min(s["shards"], total))
        for k in range(ns):
            cnt = total // ns + (1 if k < total % ns else 0)
            shards.append((k, s["name"], cnt))
    shards.sort(key=lambda t: t[0])
    for k, name, cnt in shards:
        queue.append(Job(tmp, n, {
            "kind": "shard", "prop": prop, "sub": name, "seed": seed, "shard": k,
            "n": cnt, "known": known}))
        n += 1
    running = []
    stop = False
    while (queue or running) and not stop:
        while queue and len(running) < NPROC:
            job = queue.pop(0)
            jobs.append(job)
            job.start()
            running.append(job)
        time.sleep(0.02)
        for job in list(running):
            rc = job.proc.poll()
            if rc is None:
                if time.monotonic() - t0 > limit:
                    job.stop()
                    running.remove(job)
                    st["errors"].append(
                        f"{job.spec['sub']} shard: time limit; last case: "
                        + json.dumps(job.last_case())[:1500])
                    stop = True
                continue
            running.remove(job)
            job.stop()
            job.log.close()
            res = job.result()
            if res is None:
                handle_death(st, prop, job, rc, known, tmp)
            else:
                merge(st, prop, job, res, known, tmp)
            if st["violation"]:
                stop = True
                break
    return st


def handle_death(st, prop, job, rc, known, tmp):
    case = job.last_case()
    sub = job.spec["sub"]
    if job.spec["kind"] == "list" and case is not None:
        for item in job.spec["items"]:
            if item["case"] == case:
                sub = item["sub"]
    if rc < 0 and -rc in CRASH and case is not None:
        yes, msg = confirm(tmp, prop, sub, case, known, f"confirm-{job.n}")
        if yes:
            st["violation"] = {"sub": sub, "case": case, "message": msg}
            return
    st["errors"].append(
        f"{sub} worker ended with {rc}\n{job.tail()}\nlast case: "
        + json.dumps(case)[:1000])


def merge(st, prop, job, res, known, tmp):
    sub = res["sub"]
    st["evaluations"] += res["evaluations"]
    st["keys"].update(sub + ":" + k for k in res["keys"])
    ps = st["per_sub"].setdefault(
        sub, {"evaluations": 0, "distinct_nontrivial": 0, "cpu_wall_s": 0.0, "_k": set()})
    ps["evaluations"] += res["evaluations"]
    ps["_k"].update(res["keys"])
    ps["cpu_wall_s"] = round(ps["cpu_wall_s"] + res["wall_s"], 1)
    for k, v in res["labels"].items():
        k = f"{sub}/{k}"
        st["labels"][k] = st["labels"].get(k, 0) + v
    for k, v in res["notes"].items():
        k2 = f"{sub}/{k}"
        if k.startswith("max"):
            st["notes"][k2] = max(st["notes"].get(k2, 0), v)
        else:
            st["notes"][k2] = st["notes"].get(k2, 0) + v
    for k, v in res["known"].items():
        st["known"][k] = st["known"].get(k, 0) + v
    if sum(1 for s in st["samples"] if s.startswith(sub + " ")) < 2:
        for s in res["samples"][-1:]:
            st["samples"].append(f"{sub} {s}")
    if res["status"] == "violation":
        first = None
        for i, f in enumerate(res["failures"]):
            name = f.get("sub", sub)
            yes, msg = confirm(tmp, prop, name, f["case"], known, f"confirm-{job.n}-{i}")
            if yes:
                first = {"sub": name, "case": f["case"], "message": msg}
                break
        if first is None:
            f = res["failures"][0]
            first = {
                "sub": f.get("sub", sub), "case": f["case"],
                "message": f["message"] + " [seen in the search; not repeated by a "
                "replay in a fresh process, so it depends on earlier cases]"}
        st["violation"] = first
    elif res["status"] == "error":
        st["errors"].append(f"{sub}: {res['error']}\ncase: {res.get('error_case', '')}")


def write_evidence(prop, tier, seed, subs, st, t0):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    per = {}
    for k, v in sorted(st["per_sub"].items()):
        v = dict(v)
        v["distinct_nontrivial"] = len(v.pop("_k"))
        per[k] = v
    samples = st["samples"] or ["(none)"]
    if st["violation"]:
        samples = [json.dumps(st["violation"]["case"])[:900]] + samples
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st["evaluations"],
            "distinct_nontrivial": len(st["keys"]),
            "rule": " | ".join(f"{s['name']}: {s['rule']}" for s in subs),
            "samples": samples[:12],
            "sub_checks": per,
            "classes": dict(sorted(st["labels"].items())),
            "measures": dict(sorted(st["notes"].items())),
            "known_findings_met": st["known"],
        },
        "assumptions": [
            "pure Python code paths (the optional rust_protosym extension is not "
            "installed here)",
            "the reference model and oracles under /verif/pv are correct",
        ],
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if st["violation"] else 0,
    }
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
