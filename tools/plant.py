"""Development tool: confirm a planted bug in a scratch copy and see whether the checks catch it.

plant.py new ID PROP FILE <<< JSON {"edits": [[file, old, new], ...], "needs":..., "breaks":..., "demo": "python source"}
plant.py confirm ID [--tests] [--check C..]
The scratch copy is /tmp/plant/ID (removed afterwards); the registered checks never read /verif/seeded.
"""
import json, os, subprocess, sys, shutil
V = "/verif/seeded"
BASE = "cde15fe"
DEMO = '#!/bin/bash\nexec env JAX_PLATFORMS=cpu /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, env=None, cwd=None, timeout=1500):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=True, env=e, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def fresh(id_):
    d = f"/tmp/plant/{id_}"
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs("/tmp/plant", exist_ok=True)
    sh(f"cp -a /repo {d} && cd {d} && git checkout -q -- .")
    return d


def new(id_, spec):
    d = fresh(id_)
    for f, old, newtxt in spec["edits"]:
        p = os.path.join(d, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        orig = sh(f"git show {BASE}:{f}", cwd=d).stdout
        for line in old.splitlines():
            if line.strip() and line not in newtxt.splitlines() and line not in orig.splitlines():
                print("NOTE: line not in the original repository:", line)
        open(p, "w").write(s.replace(old, newtxt))
    o = os.path.join(V, id_)
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "w").write(sh("git diff", cwd=d).stdout)
    open(os.path.join(o, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    open(os.path.join(o, "demo.py"), "w").write(spec["demo"].lstrip("\n"))
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
    shutil.rmtree(d)


def confirm(id_, tests=True, checks=()):
    d = fresh(id_)
    o = os.path.join(V, id_)
    r = {}
    env = {"PYTHONPATH": f"{d}/src", "PYTHONDONTWRITEBYTECODE": "1", "JAX_PLATFORMS": "cpu", "COORDINAX_REPO": d}
    a = sh(f"bash {o}/demo.sh", env, d)
    r["demo_clean"] = a.returncode
    if a.returncode:
        r["clean_err"] = (a.stdout + a.stderr)[-300:]
    p = sh(f"git apply {o}/patch.diff", cwd=d)
    assert p.returncode == 0, p.stderr
    a = sh(f"bash {o}/demo.sh", env, d)
    r["demo_patched"] = a.returncode
    r["demo_msg"] = (a.stdout + a.stderr).strip()[-160:]
    if tests:
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --timeout=300 --tb=line --no-showlocals -x --maxfail=8 src docs tests", env, d)
        r["tests"] = t.stdout.strip().splitlines()[-1:] or t.stderr[-300:]
        if t.returncode:
            r["failed"] = [l for l in t.stdout.splitlines() if l.startswith("FAILED")][:8]
    for c in checks:
        k = sh(f"timeout 880 /opt/venv/bin/python -u /verif/checks/{c.lower()}.py", env | {"VERIF_EVIDENCE": f"/tmp/plant/ev-{id_}"}, "/verif")
        r[c] = [k.returncode] + [l[:300] for l in k.stdout.splitlines() if "mechanisms" in l or l.startswith(("HELD", "VIOL", "INCON"))]
    shutil.rmtree(d)
    print(id_, json.dumps(r, indent=1), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(sys.argv[2], json.load(sys.stdin))
    else:
        cs = sys.argv[sys.argv.index("--check") + 1:] if "--check" in sys.argv else ()
        confirm(sys.argv[2], "--tests" in sys.argv, cs)
