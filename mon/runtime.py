"""Check runner: workers, event recorder, three-valued verdict, known findings, evidence, replay.

A check module (``checks/cNN.py``) defines

* ``PROP``, ``RULE``, ``LEVEL_NOTE`` ...
* ``cases(tier)``: list of ``(name, fn)``; ``fn(ctx)`` runs library calls and judges them,
* ``REQUIRED``: mapping event name -> minimum count on the quick tier (less -> inconclusive, exit 2),
* optionally ``setup(ctx)`` run once per worker after the library is imported.

``main(module)`` spawns worker processes (``WORKERS``), each running the cases assigned to it round robin.
"""

import contextlib
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("COORDINAX_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.json")
MAXV = 8


def base_env(**kw):
    e = dict(os.environ)
    e.update(JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_ENABLE_X64="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TF_CPP_MIN_LOG_LEVEL="3")
    e.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    e["COORDINAX_ENABLE_RUNTIME_TYPECHECKING"] = "None"  # the users' default; checks override it with MODES
    e["PYTHONPATH"] = HERE + os.pathsep + os.path.join(REPO, "src")
    e.update({k: v for k, v in kw.items() if v is not None})
    return e


def import_library():
    """Import coordinax from /repo's working tree (never from anywhere else)."""
    import types

    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    if not os.path.exists(os.path.join(src, "coordinax", "_version.py")):
        m = types.ModuleType("coordinax._version")
        m.version = m.__version__ = "0+monitor"
        m.version_tuple = m.__version_tuple__ = (0,)
        m.commit_id = m.__commit_id__ = None
        sys.modules["coordinax._version"] = m
    import coordinax

    assert os.path.realpath(coordinax.__file__).startswith(os.path.realpath(src)), coordinax.__file__
    return coordinax


class CaseAbort(Exception):
    pass


def jsonable(x, depth=0):
    import numpy as np

    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, (str, bool, int, type(None))):
        return x
    if isinstance(x, float):
        return x
    if isinstance(x, np.generic):
        return x.item() if x.dtype.kind != "c" else repr(x.item())
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "c":
            return repr(x)[:400]
        return x.tolist() if x.size <= 64 else {"shape": list(x.shape), "head": x.ravel()[:12].tolist()}
    return repr(x)[:400]


class Ctx:
    def __init__(self, prop, tier, seed):
        import numpy as np

        self.prop, self.tier, self.seed = prop, tier, seed
        self.np = np
        self.events, self.keys, self.samples = {}, set(), []
        self._fallback, self._case_samples = None, 0
        self.violations, self.vcount, self.known = [], {}, {}
        self.evals = 0
        self.journal = {}   # records handed to the offline checker (module.merge) in the parent process
        self.mode = int(os.environ.get("VERIF_MODE", "0"))
        self.case, self.rng = "?", np.random.default_rng(seed)
        with open(KNOWN) as f:
            self.known_keys = {k["mechanism"]: k for k in json.load(f)["findings"]}
        self._case_samples = 0

    # ---- recording
    def quick(self):
        return self.tier == "quick"

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def distinct(self, *key):
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def sample(self, **kw):
        if self._case_samples < 1 and len(self.samples) < 40:
            self._case_samples += 1
            self.samples.append(jsonable({"case": self.case, **kw}))

    def flush_sample(self):
        """A case that recorded no sample of its own is represented by its last scoped call."""
        if self._fallback and not self._case_samples:
            self.sample(**self._fallback)
        self._fallback = None

    def begin(self, name):
        self.flush_sample()
        self.case = name
        self._case_samples = 0
        self.rng = self.np.random.default_rng([self.seed, zlib.crc32(name.encode())])

    # ---- judging
    def violation(self, mech, msg, **w):
        key = f"{self.prop}:{mech}"
        for kk in self.known_keys:
            if key == kk:
                self.known[kk] = self.known.get(kk, 0) + 1
                return
        self.vcount[key] = self.vcount.get(key, 0) + 1
        if self.vcount[key] <= 2 and len(self.violations) < 60:
            self.violations.append({"mechanism": key, "case": self.case, "message": str(msg)[:1500],
                                    "witness": jsonable(w)})

    def check(self, ok, mech, msg="", **w):
        self.evals += 1
        try:
            ok = bool(ok)
        except Exception as e:  # noqa: BLE001
            ok, msg = False, f"{msg} (truth value failed: {e!r})"
        if not ok:
            self.violation(mech, msg or mech, **w)
        return ok

    def close(self, got, want, tol, mech, msg="", **w):
        """Element-wise |got-want| <= tol; shapes must agree; NaN only where NaN is wanted."""
        np = self.np
        got, want = np.asarray(got), np.asarray(want)
        self.evals += max(int(want.size), 1)
        if got.shape != want.shape:
            self.violation(mech, f"{msg}: shape {got.shape} != expected {want.shape}", got=got, want=want, **w)
            return False
        tol = np.broadcast_to(np.asarray(tol, dtype=float), want.shape)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(got - want) <= tol)
            bad &= ~(got == want)
            bad &= ~(np.isnan(got) & np.isnan(want))
        if bad.any():
            i = tuple(int(j) for j in np.argwhere(bad)[0]) if bad.ndim else ()
            self.violation(mech, f"{msg}: {int(bad.sum())}/{bad.size} values wrong; at {i}: got {got[i]!r} want "
                                 f"{want[i]!r} tol {tol[i]:.3g}", got=got, want=want, index=i, **w)
            return False
        return True

    @contextlib.contextmanager
    def scope(self, mech, **w):
        """Run library calls that must succeed: any exception is a violation of the property."""
        if not self._case_samples and w:
            self._fallback = {"call": mech, **w}
        try:
            yield
        except CaseAbort:
            raise
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-6:]))
            txt = str(e)
            if "equinox.EquinoxRuntimeError:" in txt:
                txt = txt.split("equinox.EquinoxRuntimeError:")[-1].strip()
            self.violation(f"{mech}:raised", f"unexpected {type(e).__name__}: {txt[:600]} [{where}]", **w)

    def must_raise(self, fn, mech, exc=Exception, msg="", **w):
        self.evals += 1
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:  # noqa: BLE001
            self.violation(mech, f"{msg}: raised {type(e).__name__} instead of {exc}: {str(e)[:300]}", **w)
            return False
        self.violation(mech, f"{msg}: returned {type(r).__name__} instead of raising", result=repr(r)[:300], **w)
        return False


# ------------------------------------------------------------------------------------------------ worker
def take(items, qfile):
    """Workers share one counter file: each case is executed by exactly one worker."""
    import fcntl

    while True:
        with open(qfile, "a+") as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            f.seek(0)
            i = int(f.read() or 0)
            f.seek(0)
            f.truncate()
            f.write(str(i + 1))
        if i >= len(items):
            return
        yield items[i]


def modes_of(mod):
    """Environments under which every case is executed (worker w runs mode w mod len(modes))."""
    return getattr(mod, "MODES", [{}])


def run_worker(mod, tier, seed, widx, nw, only, out):
    t0 = time.time()
    warnings.simplefilter("ignore")
    ctx = Ctx(mod.PROP, tier, seed)
    res = {"ok": False}
    try:
        import_library()
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        allc = mod.cases(tier)
        allc = [c for c in allc if only is None or only in c[0]]
        timing, mine = [], []
        for name, fn in take(allc, os.path.join(os.path.dirname(out), f"queue{widx % len(modes_of(mod))}")):
            mine.append(name)
            ctx.begin(name)
            t1 = time.time()
            try:
                fn(ctx)
            except CaseAbort:
                pass
            except (KeyboardInterrupt, MemoryError):
                raise
            except Exception as e:  # noqa: BLE001
                ctx.violation("case:raised", f"{type(e).__name__}: {str(e)[:500]}\n{traceback.format_exc()[-1500:]}")
            timing.append((round(time.time() - t1, 2), name))
        if hasattr(mod, "finish"):
            mod.finish(ctx)
        res = {"ok": True, "ncases": len(mine), "timing": sorted(timing, reverse=True)[:8]}
    except Exception:  # noqa: BLE001
        res = {"ok": False, "error": traceback.format_exc()[-3000:]}
    ctx.flush_sample()
    res.update(events=ctx.events, keys=sorted(ctx.keys), samples=ctx.samples, violations=ctx.violations,
               vcount=ctx.vcount, known=ctx.known, evals=ctx.evals, wall=time.time() - t0,
               mode=ctx.mode, journal=ctx.journal)
    with open(out, "w") as f:
        json.dump(res, f)


# ------------------------------------------------------------------------------------------------ master
def main(mod):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only", default=None, help="run only cases whose name contains this")
    ap.add_argument("--worker", type=int, default=None)
    ap.add_argument("--nw", type=int, default=None)
    ap.add_argument("--out", default=None)
    ap.add_argument("--timing", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier.startswith("t") else "quick"
    if a.worker is not None:
        run_worker(mod, tier, a.seed, a.worker, a.nw, a.only, a.out)
        return 0
    t0 = time.time()
    nw = a.nw or getattr(mod, "WORKERS", 8)
    limit = 840 if tier == "quick" else 6 * 3600
    modes = modes_of(mod)
    nw = max(nw, len(modes))
    # cases are seeded by name, so the assignment to workers does not influence them
    script = os.path.join(HERE, "checks", os.path.basename(mod.__file__))
    tmp = tempfile.mkdtemp(prefix=f"verif-{mod.PROP}-")
    procs = []
    for w in range(nw):
        out = os.path.join(tmp, f"w{w}.json")
        cmd = [PY, "-u", script, "--tier", tier, "--seed", str(a.seed), "--worker", str(w), "--nw", str(nw), "--out", out]
        if a.only:
            cmd += ["--only", a.only]
        env = base_env(**modes[w % len(modes)])
        env["VERIF_MODE"] = str(w % len(modes))
        log = open(os.path.join(tmp, f"w{w}.log"), "w")
        procs.append((subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT, cwd=tmp), out, log))
    results, problems = [], []
    for w, (p, out, log) in enumerate(procs):
        try:
            p.wait(timeout=max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            problems.append(f"worker {w} hit the watchdog")
        log.close()
        if os.path.exists(out):
            with open(out) as f:
                r = json.load(f)
            results.append(r)
            if not r["ok"]:
                problems.append(f"worker {w}: {r.get('error')}")
        else:
            with open(log.name) as f:
                problems.append(f"worker {w} died (rc {p.returncode}): {f.read()[-1500:]}")
    import shutil

    shutil.rmtree(tmp, ignore_errors=True)
    ev, keys, samples, viol, vcount, known, evals, ncases = {}, set(), [], [], {}, {}, 0, 0
    for r in results:
        for k, v in r["events"].items():
            ev[k] = ev.get(k, 0) + v
        keys |= set(r["keys"])
        samples += r["samples"]
        viol += r["violations"]
        for k, v in r["vcount"].items():
            vcount[k] = vcount.get(k, 0) + v
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        evals += r["evals"]
        ncases += r.get("ncases", 0)
    if hasattr(mod, "merge"):  # offline checker over the journals of all worker processes
        pc = Ctx(mod.PROP, tier, a.seed)
        pc.case = "offline"
        journals = {}
        for r in results:
            journals.setdefault(r.get("mode", 0), []).append(r.get("journal", {}))
        mod.merge(pc, journals)
        for k, v in pc.events.items():
            ev[k] = ev.get(k, 0) + v
        keys |= pc.keys
        samples += pc.samples
        viol += pc.violations
        for k, v in pc.vcount.items():
            vcount[k] = vcount.get(k, 0) + v
        for k, v in pc.known.items():
            known[k] = known.get(k, 0) + v
        evals += pc.evals
    if a.timing:
        for r in results:
            print("worker", round(r["wall"], 1), r.get("timing"))
    req = {} if a.only else getattr(mod, "REQUIRED", {})
    missing = {k: (ev.get(k, 0), n) for k, n in req.items() if ev.get(k, 0) < n}
    # one canonical sample list, deterministic
    samples = sorted(samples, key=lambda s: s.get("case", ""))
    step = max(1, len(samples) // 12)
    evidence = {
        "property": mod.PROP, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(keys), "rule": mod.RULE,
            "samples": samples[::step][:12] or [{"case": "none"}],
            "cases": ncases, "events": dict(sorted(ev.items())), "required_events": req,
            "violations_by_mechanism": vcount, "known_findings_hit": known,
            "inconclusive_reasons": problems + [f"{k}: observed {v[0]} < required {v[1]}" for k, v in missing.items()],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2), "violations": sum(vcount.values()),
    }
    os.makedirs(EVID, exist_ok=True)
    evp = os.path.join(EVID, f"{mod.PROP}.json")
    if not a.only:
        with open(evp, "w") as f:
            json.dump(evidence, f, indent=1)
    with open(KNOWN) as f:
        kf = {k["mechanism"]: k for k in json.load(f)["findings"]}
    for k, n in sorted(known.items()):
        print(f"KNOWN-FINDING: property={mod.PROP} {kf[k]['what']} [{k}, {n} occurrences]")
    if viol:
        rep = os.path.join(EVID, f"replay-{mod.PROP}.json")
        with open(rep, "w") as f:
            json.dump({"property": mod.PROP, "tier": tier, "seed": a.seed,
                       "rerun": f"cd {HERE} && VERIF_SEED={a.seed} VERIF_TIER={tier} {PY} checks/{os.path.basename(mod.__file__)} "
                                f"--only '{viol[0]['case']}'", "violations": viol}, f, indent=1)
        for v in viol[:MAXV]:
            print(f"  {v['mechanism']} in case {v['case']}: {v['message']}")
        print(f"  mechanisms: {vcount}")
        for p in problems:
            print(f"  note: {p[-400:]}")
        print(f"VIOLATION property={mod.PROP} replay={rep}")
        return 1
    if problems or missing:
        for p in problems:
            print("INCONCLUSIVE:", p)
        for k, v in missing.items():
            print(f"INCONCLUSIVE: required event {k}: {v[0]} < {v[1]}")
        return 2
    print(f"HELD property={mod.PROP} on {evals} evaluations, {len(keys)} distinct situations, {ncases} cases, "
          f"{evidence['wall_s']} s ({tier}, seed {a.seed})")
    return 0
