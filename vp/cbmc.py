"""goto-cc / goto-instrument --dfcc / cbmc, one unit at a time."""
import json, re
from .core import *

CHECKS = ["--bounds-check", "--pointer-check", "--no-signed-overflow-check"]


class Obl:
    __slots__ = ("id", "status", "desc", "line", "file", "func", "trace")

    def __init__(self, r):
        l = r.get("sourceLocation", {})
        self.id, self.status, self.desc = r["property"], r["status"], r["description"]
        self.line, self.file, self.func = int(l.get("line", 0) or 0), l.get("file", ""), l.get("function", "")
        self.trace = r.get("trace")

    def cls(self):
        d, i = self.desc, self.id
        if ".unwind." in i or "unwinding assertion" in d or ".recursion" in i:
            return "unwind"
        if ".postcondition" in i or d.startswith("Check ensures"):
            return "post"
        if ".precondition" in i or d.startswith("Check requires"):
            return "pre"
        if ".assertion." in i and d.split(":")[0] in ("exact", "roundtrip", "post", "canary"):
            return "post"
        return "mem"


def instrument(gb, entry, out, enforce=None, replace=(), extra=()):
    must(["goto-cc", gb, "--function", entry, "-o", out])
    cmd = ["goto-instrument", "--dfcc", entry]
    if enforce:
        cmd += ["--enforce-contract", enforce]
    for r in replace:
        cmd += ["--replace-call-with-contract", r]
    must(cmd + list(extra) + [out, out])


def check(gb, unwind=6, trace=False, timeout=300, checks=CHECKS, extra=(), env=None):
    cmd = ["cbmc", gb] + list(checks) + ["--unwind", str(unwind), "--unwinding-assertions", "--json-ui"] + (["--trace"] if trace else []) + list(extra)
    rc, o, e, sec = run(cmd, timeout=timeout)
    if rc == -99:
        raise ToolError("cbmc: no answer within %d s" % timeout)
    try:
        j = json.loads(o)
    except ValueError:
        raise ToolError("cbmc: " + (o + e)[-800:])
    for x in j:
        if "result" in x:
            return [Obl(r) for r in x["result"]], sec
    raise ToolError("cbmc gave no result: " + " ".join(m.get("messageText", "") for m in j if isinstance(m, dict))[-800:])


def scalars(trace):
    """last value of every scalar assigned in the trace, by its lhs"""
    v = {}
    for s in trace or []:
        if s.get("stepType") == "assignment":
            x = s.get("value", {})
            if "data" in x and x.get("name") in ("integer", "unsignedbv", "boolean", "pointer"):
                v[s.get("lhs", "")] = x["data"]
    return v
