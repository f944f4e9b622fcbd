"""seedall.py [name...]: run each planted bug's own check against a scratch copy of /repo carrying
the bug, remember the verdicts in tools/seed_results.json and rewrite the table in DESIGN.md
(development tool, not used by any check)."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = ROOT + "/tools/seed_results.json"
res = json.load(open(RES)) if os.path.exists(RES) else {}
names = sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded"))
for n in [] if names == ["--table"] else names:
    d = ROOT + "/seeded/" + n
    meta = json.load(open(d + "/meta.json"))
    work = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        shutil.copytree("/repo/lingam", work + "/lingam")
        a = subprocess.run(["git", "apply", "--directory=" + work.lstrip("/"), "--unsafe-paths", d + "/patch.diff"], cwd="/", capture_output=True, text=True)
        if a.returncode:
            a = subprocess.run(["patch", "-p1", "-d", work, "-i", d + "/patch.diff"], capture_output=True, text=True)
        if a.returncode:
            print(n, "PATCH FAILS", a.stdout[-200:], a.stderr[-200:]); continue
        c = subprocess.run(["./run.sh", meta["property"], "quick"], cwd=ROOT, env=dict(os.environ, VERIF_REPO=work, VERIF_SEED="1"), capture_output=True, text=True)
        f = [l.split("failed:")[1].split("{")[0].strip() for l in c.stdout.splitlines() if "failed:" in l]
        res[n] = {"rc": c.returncode, "clause": f[0] if f else ""}
        print(n, meta["property"], res[n], flush=True)
        json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
    finally:
        shutil.rmtree(work)
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(ROOT + "/seeded")):
    meta = json.load(open(ROOT + "/seeded/" + n + "/meta.json"))
    r = res.get(n, {"rc": None})
    rows.append("| %s: %s | %s | %s | %s |" % (n, meta["what_it_breaks"], meta["property"], meta["needs"],
                ("%s quick (%s)" % (meta["property"], r["clause"])) if r["rc"] == 1 else "not caught" if r["rc"] == 0 else "?"))
s = open(ROOT + "/DESIGN.md").read()
i = s.index("<!-- seeds -->")
open(ROOT + "/DESIGN.md", "w").write(s[:i] + "<!-- seeds -->\n" + "\n".join(rows) + "\n")
