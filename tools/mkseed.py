"""mkseed.py SPEC.json: plants a bug in a scratch copy, validates it and stores it under /verif/seeded/<id>
SPEC: id, property, edits [[file, old, new]...], needs, breaks, demo (python text; exit code decides)"""
import json, os, shutil, subprocess, sys, tempfile
S = json.load(open(sys.argv[1]))
S = S if isinstance(S, list) else [S]
runcheck = "--check" in sys.argv
for s in S:
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        r = d + "/repo"
        out = "/verif/seeded/" + s["id"]
        os.makedirs(out, exist_ok=True)
        open(out + "/demo.py", "w").write(s["demo"])
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OMP_NUM_THREADS=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        c0 = subprocess.run(["bash", out + "/demo.sh"], cwd=r, capture_output=True, text=True)
        for f, a, b in s["edits"]:
            t = open(r + "/" + f).read()
            assert t.count(a) == 1, (s["id"], f, a, t.count(a))
            open(r + "/" + f, "w").write(t.replace(a, b))
        c1 = subprocess.run(["bash", out + "/demo.sh"], cwd=r, capture_output=True, text=True)
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        t = subprocess.run("cd %s && PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -W ignore -m pytest -q -x tests -p no:cacheprovider 2>&1 | tail -3" % r, shell=True, capture_output=True, text=True).stdout.strip().splitlines()
        ok = c0.returncode == 0 and c1.returncode != 0
        print(s["id"], "demo ok" if ok else "DEMO BAD %d %d %s" % (c0.returncode, c1.returncode, (c0.stdout + c0.stderr)[-600:]), "|", t[-1] if t else "?")
        if runcheck:
            e = dict(os.environ, VERIF_REPO=r)
            c = subprocess.run(["python3-vt", "/verif/check.py", s["property"]], cwd="/verif", env=e, capture_output=True, text=True)
            print("   check rc=%d  %s" % (c.returncode, " / ".join(l[:150] for l in c.stdout.splitlines() if "VIOLATION" in l or "ENGINE" in l)[:400]))
            print("   ", "\n    ".join(l[:220] for l in c.stdout.splitlines()[:4]))
    finally:
        shutil.rmtree(d)
