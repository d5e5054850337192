import json, os, subprocess, sys, time, shutil, tempfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KV_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = int(os.environ.get("KV_JOBS", "8"))
os.makedirs(BUILD, exist_ok=True)


def sh(cmd, timeout=600, cwd=None, env=None, inp=None):
    """-> (rc, stdout, stderr); rc None on timeout"""
    e = dict(os.environ)
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin"
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL, cwd=cwd, env=e, text=True, start_new_session=True)
    try:
        o, r = p.communicate(inp, timeout=timeout)
        return p.returncode, o, r
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, r = p.communicate()
        return None, o, r


def cargo_build(crate, args=(), env=None):
    """Builds a crate of /verif against /repo's working tree. -> (ok, stderr)"""
    rc, o, e = sh(["cargo", "build", "--offline", "--target-dir", TARGET] + list(args), timeout=600, cwd=os.path.join(VERIF, crate), env=env)
    return rc == 0, e


class Ob:
    """one proof obligation and what became of it"""

    def __init__(self, contract, name, path=""):
        self.contract, self.name, self.path = contract, name, path
        self.status, self.backend, self.secs, self.detail = "unknown", "-", 0.0, ""

    def js(self):
        return {"contract": self.contract, "obligation": self.name, "path": self.path, "status": self.status, "backend": self.backend, "seconds": round(self.secs, 3), "detail": self.detail}


class Report:
    def __init__(self, prop):
        self.prop, self.t0 = prop, time.time()
        self.obs, self.violations, self.bounded, self.assumptions, self.functions, self.samples = [], [], [], [], [], []
        self.trusted, self.notes, self.extra = [], [], {}
        self.evals = self.distinct = 0

    def violate(self, title, data, found_input):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        data = dict(data)
        data.update(property=self.prop, violated=title, failing_input_found=found_input)
        with open(p, "w") as f:
            json.dump(data, f, indent=1)
        self.violations.append((title, p, found_input))

    def finish(self, checker_cmd):
        n = len(self.obs)
        done = [o for o in self.obs if o.status == "proved"]
        by = {}
        for o in done:
            by[o.backend] = by.get(o.backend, 0) + 1
        open_ = [o.js() for o in self.obs if o.status != "proved"]
        ev = {
            "property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": "proof",
            "coverage": {
                "obligations": n, "discharged": len(done), "checker_cmd": checker_cmd, "trusted_base": self.trusted,
                "functions_under_contract": self.functions, "discharged_by": by,
                "solver_seconds": round(sum(o.secs for o in self.obs), 2), "undischarged": open_[:40],
                "bounded_stand_ins": self.bounded, "evaluations": self.evals, "distinct_nontrivial": self.distinct,
                "rule": "runs of the contracts on the compiled crate with sampled inputs; non-trivial: accepted by the precondition and distinct",
                "samples": self.samples[:8], "notes": self.notes,
            },
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        ev["coverage"].update(self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for t, p, found in self.violations[:1]:
            print("violated: %s" % t)
            print("VIOLATION property=%s replay=%s%s" % (self.prop, p, "" if found else " no-failing-input-found"))
        print("%s: %d/%d obligations discharged %s, %d concrete runs, %.1fs" % (self.prop, len(done), n, by, self.evals, time.time() - self.t0))
        for b in self.bounded:
            print("bounded stand-in: %s" % (b.get("what") if isinstance(b, dict) else b))
        return 1 if self.violations else 0
