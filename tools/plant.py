"""plants bugs from a spec file:  python3 tools/plant.py SPEC.py [id ...]
SPEC.py defines BUGS = [dict(id, prop, file, edits=[(old, new)], demo, needs, breaks)].
Each is tried in a scratch copy of /repo: tests pass, the demo fails with it and passes without."""
import json, os, subprocess, sys, shutil, runpy
PY = "/opt/venv/bin/python"
spec = runpy.run_path(sys.argv[1])
want = set(sys.argv[2:])
DEMO_SH = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec %s "$(dirname "$0")/demo.py"\n' % PY
for b in spec["BUGS"]:
    if want and b["id"] not in want:
        continue
    d = f"/verif/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    work = f"/tmp/plant_{b['id']}"
    subprocess.run(["rm", "-rf", work])
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    shutil.copytree("/repo", work, symlinks=True)
    edits = b["edits"] if isinstance(b["edits"], list) else [b["edits"]]
    for e in edits:
        f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
        p = f"{work}/ebsdtorch/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", work, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[-1]
    for e in edits:
        f = e[0] if len(e) == 3 else b["file"]
        orig = set(subprocess.run(["git", "-C", "/repo", "show", f"{base}:ebsdtorch/{f}"], capture_output=True, text=True).stdout.splitlines())
        for l in subprocess.run(["git", "-C", work, "diff", "--", "ebsdtorch/" + f], capture_output=True, text=True).stdout.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
                print(b["id"], "NOT ORIGINAL", l)
    open(d + "/demo.py", "w").write(b["demo"].strip() + "\n")
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    env = dict(os.environ, PYTHONPATH=work, PYTHONDONTWRITEBYTECODE="1")
    t = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-x", "--ignore=tests/test_di.py", "--ignore=tests/test_di_pca.py", "-W", "ignore"], cwd=work, env=env, capture_output=True, text=True)
    d0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    d1 = subprocess.run(["bash", d + "/demo.sh"], cwd=work, capture_output=True, text=True)
    ok = t.returncode == 0 and d0.returncode == 0 and d1.returncode != 0
    print(b["id"], "OK" if ok else "BAD", "tests", t.stdout.strip().splitlines()[-1], "demo clean", d0.returncode, "patched", d1.returncode)
    if not ok:
        print(t.stdout[-500:] if t.returncode else "", d0.stderr[-300:] if d0.returncode else "", d1.stdout[-100:])
    subprocess.run(["rm", "-rf", work])
