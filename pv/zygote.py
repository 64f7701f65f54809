"""A process forked before any case ran; it answers each request in a new fork.

Used as the reference for "the same operation in a fresh process".
"""

from __future__ import annotations

import json
import os
import traceback


class Zygote:
    def __init__(self, handler):
        """handler(request) -> answer, both JSON-able; runs in a fresh fork."""
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            self._serve(os.fdopen(r1, "r"), w2, handler)
            os._exit(0)
        os.close(r1)
        os.close(w2)
        self.to = os.fdopen(w1, "w")
        self.fro = os.fdopen(r2, "r")

    @staticmethod
    def _serve(inp, out, handler):
        for line in inp:
            pid = os.fork()
            if pid == 0:
                try:
                    res = {"ok": handler(json.loads(line))}
                except BaseException:  # noqa
                    res = {"error": traceback.format_exc()[-2000:]}
                data = (json.dumps(res) + "\n").encode()
                while data:
                    data = data[os.write(out, data):]
                os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status:
                os.write(out, (json.dumps({"error": f"ended with {status}"}) + "\n").encode())

    def ask(self, request):
        from .engine import HarnessError

        self.to.write(json.dumps(request) + "\n")
        self.to.flush()
        line = self.fro.readline()
        if not line:
            raise HarnessError("the reference process ended")
        res = json.loads(line)
        if "error" in res:
            raise HarnessError("in the reference process: " + res["error"])
        return res["ok"]
