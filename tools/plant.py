"""plant.py BATCH.py [name...]: build seeded/<name> from a batch definition (development tool).

A batch file calls plant(name, property, file, old, new, needs, breaks, demo) where demo is
python source that exits non-zero (assert) on the broken tree."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
WANT = sys.argv[2:]


def plant(name, prop, edits, needs, breaks, demo, tests=True):
    if WANT and name not in WANT:
        return
    work = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    copy = work + "/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", copy])
        for fn, old, new in edits:
            p = os.path.join(copy, fn)
            s = open(p).read()
            if s.count(old) < 1:
                print(name, "OLD NOT FOUND in", fn, repr(old)[:90]); return
            if s.count(old) > 1:
                print(name, "note: first of", s.count(old))
            open(p, "w").write(s.replace(old, new, 1))
        diff = subprocess.check_output(["git", "-C", copy, "diff"], text=True)
        d = os.path.join(work, "s")
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(demo)
        open(d + "/demo.sh", "w").write(
            '#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\n'
            'export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1\n'
            'PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(d + "/meta.json", "w"), indent=1)
        r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=copy, capture_output=True, text=True)
        if r0.returncode != 0:
            print(name, "DEMO FAILS ON BASE", r0.stderr[-600:]); return
        if r1.returncode == 0:
            print(name, "DEMO PASSES WITH PATCH"); return
        if tests:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider",
                                "--timeout=600", "-n", "8", "--randomly-seed=1",
                                "--randomly-dont-reorganize"], cwd=copy, env=ENV,
                               capture_output=True, text=True)
            if t.returncode:
                print(name, "TESTS:", [l for l in t.stdout.splitlines() if l.startswith("FAILED")][:3],
                      t.stdout.splitlines()[-1]); return
        dst = os.path.join(ROOT, "seeded", name)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        # does the property's check see it?
        c = subprocess.run(["./run.sh", prop, "quick"], cwd=ROOT, env=dict(os.environ, VERIF_REPO=copy),
                           capture_output=True, text=True)
        f = [l[:160] for l in c.stdout.splitlines() if "failed:" in l]
        print(name, prop, "CAUGHT" if c.returncode == 1 else "MISSED rc=%d" % c.returncode, f[:1],
              "demo:", (r1.stderr.strip().splitlines() or ["?"])[-1][:80], flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


GEN = """
if __name__ == "__main__":
    import json, sys
    def norm(v):
        import numpy as np
        if isinstance(v, dict): return {str(k): norm(x) for k, x in v.items()}
        if isinstance(v, np.ndarray): return norm(v.tolist())
        if isinstance(v, (set, frozenset)): return sorted(norm(list(v)))
        if isinstance(v, (list, tuple)): return [norm(x) for x in v]
        if isinstance(v, (float, np.floating)): return "nan" if v != v else round(float(v), 6) + 0.0
        if isinstance(v, (int, np.integer, bool, np.bool_)): return int(v)
        return str(v)
    def run(seed):
        try:
            return norm(out(seed))
        except Exception as e:
            return "raised " + type(e).__name__
"""


def plantdiff(name, prop, edits, needs, breaks, src, seeds=range(60)):
    """Like plant, but the demonstration compares out(seed) with what the unchanged tree answers."""
    if WANT and name not in WANT:
        return
    work = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        copy = work + "/repo"
        os.makedirs(copy)
        subprocess.check_call(["cp", "-a", "/repo/lingam", copy])
        for fn, old, new in edits:
            p = os.path.join(copy, fn)
            s = open(p).read()
            if s.count(old) < 1:
                print(name, "OLD NOT FOUND in", fn, repr(old)[:90]); return
            open(p, "w").write(s.replace(old, new, 1))
        open(work + "/g.py", "w").write(src + GEN + "    print(json.dumps([run(s) for s in %r]))\n" % list(seeds))
        outs = []
        for base in ("/repo", copy):
            r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", work + "/g.py"], cwd=base,
                               env=dict(ENV, PYTHONPATH=base), capture_output=True, text=True)
            if r.returncode:
                print(name, "GEN FAILED", r.stderr[-500:]); return
            outs.append(json.loads(r.stdout.splitlines()[-1]))
        diff = [(s, a) for s, a, b in zip(seeds, *outs) if a != b]
        print(name, "differs on %d of %d seeds" % (len(diff), len(list(seeds))), diff[:1] and str(diff[0])[:120])
        if not diff:
            return
        demo = src + GEN + "    want = json.loads(%r)\n" % json.dumps(diff[:6]) + """
    def same(a, b):
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(map(same, a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return abs(a - b) <= 1e-4 * max(1, abs(a))
        return a == b
    for s, w in want:
        g = run(s)
        assert same(g, w), (s, g, w)
"""
    finally:
        shutil.rmtree(work, ignore_errors=True)
    plant(name, prop, edits, needs, breaks, demo)


exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
