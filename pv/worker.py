"""Entry point of a worker process: python -m pv.worker JOB.json"""

from __future__ import annotations

import json
import resource
import sys


def main():
    with open(sys.argv[1]) as fh:
        job = json.load(fh)
    lim = job.get("mem", 4 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    from pv import engine

    if job["kind"] == "shard":
        engine.run_shard(
            job["prop"], job["sub"], job["seed"], job["shard"], job["n"],
            set(job["known"]), job["out"],
        )
    elif job["kind"] == "list":
        engine.run_list(job["prop"], job["items"], set(job["known"]), job["out"])
    elif job["kind"] == "replay":
        status, message = engine.replay(
            job["prop"], job["sub"], job["case"], set(job["known"])
        )
        engine._dump({"status": status, "message": message}, job["out"])
    else:
        raise SystemExit("bad job")


if __name__ == "__main__":
    main()
