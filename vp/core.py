"""Shared parts of every check: scratch space, evidence, known findings, verdicts."""
import json, os, shutil, subprocess, sys, tempfile, time, atexit, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    pass


def scratch():
    d = tempfile.mkdtemp(prefix="vp.")
    atexit.register(shutil.rmtree, d, ignore_errors=True)
    return d


def run(cmd, timeout=600, cwd=None, env=None, stdin=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, timeout=timeout, cwd=cwd, env=env, input=stdin)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"), time.time() - t
    except subprocess.TimeoutExpired as e:
        return -99, (e.stdout or b"").decode(errors="replace"), "timeout", time.time() - t


def must(cmd, **kw):
    rc, o, e, _ = run(cmd, **kw)
    if rc:
        raise ToolError("%s\n%s" % (" ".join(cmd[:6]), (o + e)[-3000:]))
    return o


def pmap(f, xs, n=JOBS):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


class Report:
    """Collects obligations and failures of one property, then writes evidence and the verdict."""

    def __init__(self, prop, level="proof"):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.obl = 0            # obligations generated
        self.ok = 0             # discharged
        self.functions = []     # units under contract: {"unit","obligations","discharged","seconds"}
        self.bounded = []       # units only checked up to a bound
        self.fail = []          # {"unit","obligation","detail", "replay": {...}|None}
        self.known = []
        self.canaries = [0, 0]  # checks that must fail: tried, failed as they should
        self.solver = 0.0
        self.trusted, self.assume, self.cmd, self.backend, self.notes = [], [], "", {}, []

    def unit(self, name, obl, ok, sec, backend):
        self.obl += obl
        self.ok += ok
        self.solver += sec
        self.functions.append({"unit": name, "obligations": obl, "discharged": ok, "seconds": round(sec, 2)})
        self.backend[backend] = self.backend.get(backend, 0) + ok

    def canary(self, hit):
        self.canaries[0] += 1
        self.canaries[1] += 1 if hit else 0

    def failure(self, unit, obligation, detail, replay=None):
        self.fail.append({"unit": unit, "obligation": obligation, "detail": detail, "replay": replay})

    def finish(self):
        kf = known_findings(self.prop)
        left, hits = [], []
        for f in self.fail:
            k = [x for x in kf if x["key"] == f["unit"] + ":" + f["obligation"] or x["key"] == f["unit"] + ":*"]
            (hits.append(k[0]) if k else left.append(f))
        cov = {"obligations": self.obl, "discharged": self.ok, "checker_cmd": self.cmd,
               "trusted_base": self.trusted, "functions_under_contract": self.functions,
               "discharged_by": self.backend, "solver_seconds": round(self.solver, 2),
               "vacuity_canaries": {"tried": self.canaries[0], "failed_as_required": self.canaries[1]},
               "bounded_not_proved": self.bounded, "notes": self.notes,
               "failed": [{k: str(f[k])[:600] for k in ("unit", "obligation", "detail")} for f in left][:40]}
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assume,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(left)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, self.prop), "w") as fh:
            json.dump(ev, fh, indent=1)
        for x in {h["key"]: h for h in hits}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, x["what"]))
        print("%s: %d/%d obligations discharged, %d units, %.0f s" % (self.prop, self.ok, self.obl, len(self.functions), time.time() - self.t0))
        if left:
            rd = VERIF + "/evidence/replay"
            os.makedirs(rd, exist_ok=True)
            best = ([f for f in left if f["replay"]] or left)[0]
            path = "%s/%s.json" % (rd, self.prop)
            with open(path, "w") as fh:
                json.dump({"property": self.prop, "failing": best, "all": left[:40]}, fh, indent=1, default=str)
            print("  failed obligation: %s: %s" % (best["unit"], best["obligation"]))
            print("VIOLATION property=%s replay=%s%s" % (self.prop, os.path.relpath(path, VERIF), "" if best["replay"] else " no-failing-input-found"))
            sys.stdout.flush()
            return 1
        return 0


def known_findings(prop):
    """known-findings.txt: 'finding: property=<id> key=<unit>:<obligation> <what>'"""
    out = []
    try:
        for l in open(VERIF + "/known-findings.txt"):
            if l.startswith("finding: property=%s " % prop):
                rest = l.split(" ", 2)[2].strip()
                key, what = rest.split(" ", 1)
                out.append({"key": key[4:], "what": what})
    except FileNotFoundError:
        pass
    return out
