"""make_dot and make_dot_highlight: what is drawn."""
import re
import numpy as np
from .common import *

COLORS = ["red", "blue", "#00ff00", "green"]
TOK = re.compile(r'\s*(?:("(?:[^"\\]|\\.)*")|(->|[\[\]{};=,])|([^\s\[\]{};=,"]+?(?=->|[\s\[\]{};=,"]|$)))', re.S)


def tokens(src):
    pos, res = 0, []
    src = re.sub(r"^\s*//.*$", "", src, flags=re.M)
    while pos < len(src):
        m = TOK.match(src, pos)
        if not m:
            if not src[pos:].strip():
                break
            raise MachineryError("cannot read DOT: " + src[pos:pos + 80])
        pos = m.end()
        if m.group(1) is not None:
            res.append(("str", m.group(1)[1:-1].replace('\\"', '"')))
        elif m.group(2) is not None:
            res.append(("op", m.group(2)))
        else:
            res.append(("id", m.group(3)))
    return res


def parse(src):
    """nodes {name: attrs}, edges [(from, to, attrs)], cluster of nodes, cluster attrs"""
    tk = tokens(src)
    nodes, edges, clu, cattr, where = [], [], {}, {}, []
    i = 0

    def attrs(i):
        a = {}
        while i < len(tk) and tk[i] == ("op", "["):
            i += 1
            while tk[i] != ("op", "]"):
                if tk[i][0] == "op":
                    i += 1
                    continue
                k = tk[i][1]
                assert tk[i + 1] == ("op", "=")
                a[k] = tk[i + 2][1]
                i += 3
            i += 1
        return a, i

    while i < len(tk):
        t = tk[i]
        if t[0] == "op":
            if t[1] == "{":
                where.append("")
            elif t[1] == "}":
                where.pop()
            i += 1
            continue
        w = t[1]
        if t[0] == "id" and w in ("digraph", "strict"):
            while tk[i] != ("op", "{"):
                i += 1
            where.append("top")
            i += 1
        elif t[0] == "id" and w == "subgraph":
            name = ""
            i += 1
            if tk[i][0] != "op":
                name = tk[i][1]
                i += 1
            assert tk[i] == ("op", "{")
            where.append(name)
            i += 1
        elif t[0] == "id" and w in ("graph", "node", "edge") and tk[i + 1] == ("op", "["):
            a, i = attrs(i + 1)
            if w == "graph":
                cattr.setdefault(where[-1], {}).update(a)
        elif i + 1 < len(tk) and tk[i + 1] == ("op", "="):
            cattr.setdefault(where[-1], {})[w] = tk[i + 2][1]
            i += 3
        elif i + 1 < len(tk) and tk[i + 1] == ("op", "->"):
            to = tk[i + 2][1]
            a, i = attrs(i + 3)
            edges.append((w, to, a))
        else:
            a, i = attrs(i + 1)
            nodes.append((w, a, where[-1]))
            clu[w] = where[-1]
    return nodes, edges, clu, cattr


def lab(s):
    """label with two decimals -> hundredths; anything else cannot be right"""
    return int(round(float(s) * 100)) if s is not None and re.fullmatch(r"-?\d+\.\d\d", s) else 88888


def hl(a, color, edge, base=None):
    """1 highlighted, 0 not, 2 neither"""
    full = a.get("color") == color and a.get("fontcolor") == color and (not edge or a.get("penwidth") == "2")
    none = a.get("color") == base and "fontcolor" not in a and "penwidth" not in a
    return 1 if full else 0 if none else 2


def value(rng):
    v = int(rng.integers(1, 2000))
    return (v + (v % 10 == 5)) * int(rng.choice([-1, 1]))


def matrix(rng, n, dens, cyc, nan):
    B = np.zeros((n, n), int)
    o = rng.permutation(n)
    for a in range(n):
        for b in range(n):
            if (a != b or rng.random() < .05 * cyc) and rng.random() < dens and (cyc or o[b] < o[a]):
                B[a, b] = value(rng)
    if nan:
        for a in range(n):
            for b in range(a):
                if rng.random() < nan:
                    B[a, b] = B[b, a] = NAN
    return B


def real(B):
    return np.where(B == NAN, np.nan, B / 1000)


def names(rng, n, tag):
    if rng.random() < .35:
        return None
    pool = ["age", "x 1", "a-b", "π", "n%d", "Sex", "y.z", "x2", "x0", "100", "if,so", "node", "T"]
    if n > len(pool):
        return ["n%d" % i for i in rng.permutation(n)]
    p = [s if "%" not in s else s % n for s in pool]
    return [p[i] for i in rng.permutation(len(p))[:n]]


def as_labels(rng, l):
    import pandas as pd
    if l is None:
        return None
    return [l, np.array(l), pd.Index(l), tuple(l)][rng.integers(4)]


def run_dot(seed, B=None):
    from lingam.utils import make_dot
    rng = np.random.default_rng(seed)
    wide = rng.random() < .06                        # two-digit indices
    n = len(B) if B is not None else int(rng.integers(11, 15)) if wide else int(rng.integers(2, 6))
    if B is None:
        B = matrix(rng, n, .12, rng.random() < .3, .1 * rng.integers(2)) if wide else \
            matrix(rng, n, rng.choice([.2, .5, .8]), rng.random() < .5, rng.choice([0, 0, .3]))
        if rng.random() < .15:                       # lagged effects side by side
            B = np.hstack([np.where(B == NAN, 0, B)] + [np.where(rng.random((n, n)) < .4, 130 + 10 * np.arange(n), 0) for _ in range(rng.integers(1, 3))])
    B = np.array(B)
    rows, n = B.shape
    vals = [abs(int(v)) for v in B.ravel() if v not in (0, NAN)]
    thr = int(rng.choice([0, 10, 500] + vals[:3]))
    labels = names(rng, n, "t")
    pathp, color = [], None
    kw = {}
    if rows < n:
        kw["ignore_shape"] = True
    if rng.random() < .6 and rows == n:
        s, t = rng.choice(n, 2, replace=False)
        pathp = [int(s), int(t)]
        kw["path"] = (int(s), int(t))
        if rng.random() < .7:
            kw["path_color"] = str(rng.choice(COLORS))
        color = kw.get("path_color", "black")
    cyc = int(rng.random() < .5 and rows == n)
    pidx, pcoef, pmode = [], [], "none"
    if rng.random() < .4:
        pidx = [int(v) for v in rng.permutation(n)[:rng.integers(1, n + 1)]]
        pmode = str(rng.choice(["coef", "imp", "none"]))
        pcoef = [value(rng) if rng.random() < .7 else int(rng.choice([thr, -thr, 7])) for _ in pidx] if pmode == "coef" else [int(v) for v in rng.integers(1, 50, len(pidx))]
        pcoef = [c + (abs(c) % 10 == 5 and abs(c) != thr) for c in pcoef]
        kw["prediction_feature_indices"] = pidx
        if pmode == "coef":
            kw["prediction_coefs"] = [c / 1000 for c in pcoef]
        elif pmode == "imp":
            kw["prediction_feature_importance"] = pcoef
        if rng.random() < .4:
            kw["prediction_target_label"] = "target!"
        if rng.random() < .4:
            kw["prediction_line_color"] = "orange"
    if cyc or rng.random() < .5:
        kw["detect_cycle"] = bool(cyc)
    if thr != 10 or rng.random() < .5:
        kw["lower_limit"] = thr / 1000
    A = real(B)
    keep = A.copy()
    r = dict(kind="dot", n=n, B=B.tolist(), thr=thr, path=[v + 1 for v in pathp], cyc=cyc, pidx=[v + 1 for v in pidx], pcoef=pcoef, pmode=pmode,
             nodes=[], edges=[], unknown=[], pred=[], target=0, expect="ok", labels=labels or [], seed=list(seed), msg="")
    o = observe(lambda: make_dot(A, labels=as_labels(rng, labels), **kw).source)
    if o[0] != "ok":
        r.update(out=o[1], msg=o[2])
        return r
    r["out"] = "ok" if np.array_equal(A, keep, equal_nan=True) else "InputModified"
    nodes, edges, clu, _ = parse(o[1])
    nm = labels or ["x%d" % i for i in range(n)]
    ix = {s: i + 1 for i, s in enumerate(nm)}
    tl = kw.get("prediction_target_label", "Y(pred)") if pidx else None
    pc = kw.get("prediction_line_color", "red")
    unk = set()
    for w, a, c in nodes:
        if c != "top":
            unk.add(w)                               # ranking of unknown pairs only
        elif w == tl:
            r["target"] += 1 if a.get("color") == pc and a.get("fontcolor") == pc else 5
        else:
            r["nodes"].append(dict(v=ix.get(w, 0), hl=hl(a, color, 0) if pathp else (0 if not a else 2), per=int(a.get("peripheries", 0)) // 2))
    for f, t, a in edges:
        if a.get("dir") == "both":
            i, j = ix.get(f, 0), ix.get(t, 0)
            r["unknown"].append([min(i, j), max(i, j)])
        elif t == tl:
            ok = a.get("color") == pc and a.get("style") == "dashed"
            s = a.get("label")
            r["pred"].append(dict(f=ix.get(f, 0), lab=88888 if not ok else lab(s) if pmode == "coef" else
                                  (int(s[1:-1]) if s and re.fullmatch(r"\(\d+\)", s) else 88888) if pmode == "imp" else 0 if s is None else 88888))
        else:
            r["edges"].append(dict(f=ix.get(f, 0), t=ix.get(t, 0), lab=lab(a.get("label")), hl=hl(a, color, 1) if pathp else (0 if set(a) <= {"label", "style"} else 2),
                                   dash={None: 0, "dashed": 1}.get(a.get("style"), 2)))
    return r


def run_hl(seed, B=None):
    from lingam.utils import make_dot_highlight
    rng = np.random.default_rng(seed)
    wide = rng.random() < .06
    n = len(B) if B is not None else int(rng.integers(11, 15)) if wide else int(rng.integers(2, 7))
    if B is None:
        B = matrix(rng, n, .12 if wide else rng.choice([.15, .3, .6]), rng.random() < (.3 if wide else .5), 0)
    B = np.array(B)
    vals = [abs(int(v)) for v in B.ravel() if v]
    thr = int(rng.choice([0, 0, 10, 500] + vals[:3]))
    labels = names(rng, n, "h")
    node = int(rng.integers(n))
    kw, color, pathp = {}, None, []
    if rng.random() < .5:
        s, t = rng.choice(n, 2, replace=False)
        pathp = [int(s), int(t)]
        kw["path"] = tuple(pathp)
        kw["path_color"] = color = str(rng.choice(COLORS))
    cyc, others = int(rng.random() < .5), int(rng.random() < .7)
    maxd, maxa = (int(rng.choice([99, 99, 0, 1, 2])) for _ in range(2))
    if maxd != 99:
        kw["max_dsc"] = maxd
    if maxa != 99:
        kw["max_anc"] = maxa
    if thr:
        kw["lower_limit"] = thr / 1000
    if rng.random() < .3:
        kw["cmap"] = "cool"
    vm = int(rng.integers(1, 4))
    kw.update(vmargin=vm, hmargin=int(rng.integers(1, 4)))
    A = real(B)
    keep = A.copy()
    r = dict(kind="hl", n=n, B=B.tolist(), thr=thr, path=[v + 1 for v in pathp], cyc=cyc, node=node + 1, maxd=min(maxd, 98), maxa=min(maxa, 98), others=others, vm=vm,
             nodes=[], edges=[], expect="ok", labels=labels or [], seed=list(seed), msg="")
    o = observe(lambda: make_dot_highlight(A, node, labels=as_labels(rng, labels), draw_others=bool(others), detect_cycle=bool(cyc), **kw).source)
    if o[0] != "ok":
        r.update(out=o[1], msg=o[2])
        return r
    r["out"] = "ok" if np.array_equal(A, keep) else "InputModified"
    nodes, edges, clu, cattr = parse(o[1])
    nm = labels or ["x%d" % i for i in range(n)]
    ix = {s: i + 1 for i, s in enumerate(nm)}

    def dist(c):
        s = cattr.get(c, {}).get("label", "")
        m = re.fullmatch(r"(ancestor|descendant) (\d+)", s)
        return 0 if s == "target" else 99 if s == "others" else (-1 if m[1] == "ancestor" else 1) * int(m[2]) if m else 77

    place = {}
    for w, a, c in nodes:
        if a.get("style") == "invis":
            continue
        v, d = ix.get(a.get("label", w), 0), dist(c)
        place[w] = (v, d)
        p = re.fullmatch(r"(-?[\d.]+),(-?[\d.]+)!", a.get("pos", ""))
        x, y = (int(round(float(p[1]) * 1000)), float(p[2])) if p else (0, 55.5)
        col = a.get("color")
        r["nodes"].append(dict(v=v, d=d, hl=(1 if col == color and a.get("fontcolor") == color else 0 if "fontcolor" not in a else 2) if pathp else int("fontcolor" in a) * 2,
                               per=int(a.get("peripheries", 0)) // 2, x=x, y=int(y) if y == int(y) else 5555))
    for f, t, a in edges:
        (v, d), (w, e) = place.get(f, (0, 0)), place.get(t, (0, 0))
        h = a.get("color") == color and a.get("fontcolor") == color and a.get("penwidth") == "2"
        r["edges"].append(dict(f=v, fd=d, t=w, td=e, lab=lab(a.get("label")), hl=1 if pathp and h else 0 if "penwidth" not in a and "fontcolor" not in a else 2,
                               dash={None: 0, "dashed": 1}.get(a.get("style"), 2)))
    return r


def bad_calls(_=None):
    """requests that must be refused"""
    from lingam.utils import make_dot, make_dot_highlight
    I = np.array([[0, 0, 0], [.5, 0, 0], [0, .7, 0]])
    V, Ty = "ValueError", "TypeError"
    cases = [
        (V, lambda: make_dot(I[:2])), (V, lambda: make_dot(I, labels=["a", "b"])), (V, lambda: make_dot(I, labels=["a", "b", "c", "d"])),
        (V, lambda: make_dot(I, prediction_feature_indices=[0, 1], prediction_coefs=[1.])),
        (V, lambda: make_dot(I, prediction_feature_indices=[0, 1], prediction_feature_importance=[1, 2, 3])),
        (Ty, lambda: make_dot(I, path=[0, 2])), (Ty, lambda: make_dot(I, path=(0,))), (V, lambda: make_dot(I, path=(0, 2), path_color="no such color")),
        (V, lambda: make_dot(I, path=(-1, 2))), (Ty, lambda: make_dot(I, path=("a", 2))), (Ty, lambda: make_dot(I, detect_cycle=1)),
        (V, lambda: make_dot_highlight(I[:2], 0)), (V, lambda: make_dot_highlight(I, 3)), (V, lambda: make_dot_highlight(I, -1)),
        (Ty, lambda: make_dot_highlight(I, "a")), (V, lambda: make_dot_highlight(I, 0, labels=["a", "b"])), (V, lambda: make_dot_highlight(I, 0, max_dsc=-1)),
        (Ty, lambda: make_dot_highlight(I, 0, max_anc=.5)), (Ty, lambda: make_dot_highlight(I, 0, path=[0, 1])), (V, lambda: make_dot_highlight(I, 0, path=(0, 1), path_color="??")),
        (Ty, lambda: make_dot_highlight(I, 0, draw_others=2)), (V, lambda: make_dot_highlight(I, 0, vmargin=0)), (V, lambda: make_dot_highlight(I, 0, hmargin=.5)),
        ("ok", lambda: make_dot(I)), ("ok", lambda: make_dot(I, path=(0, 2))),
    ]
    res = []
    for k, (want, fn) in enumerate(cases):
        o = observe(fn)
        res.append(dict(kind="refuse", n=0, B=[], path=[], expect=want, out="ok" if o[0] == "ok" else o[1], case=k, msg="" if o[0] == "ok" else o[2]))
    return [r for r in res if r["expect"] != "ok" or r["out"] != "ok"]


def job(a):
    return (run_dot if a[0] == "dot" else run_hl)(a[1], a[2] if len(a) > 2 else None)


def check(ctx):
    inv = "SPECIFICATION Spec\nINVARIANTS LayersAreDistances NoGap PathEdgesSound CycleEdgesSound\n"
    ctx.design("MCDrawing", "CONSTANTS NV = 3\nLOOPS = TRUE\n" + inv, name="MCDrawing3")
    if ctx.thorough:
        ctx.design("MCDrawing", "CONSTANTS NV = 4\nLOOPS = FALSE\n" + inv, name="MCDrawing4")
    jobs = []
    # every graph of three variables
    for m in range(64):
        pairs = [(a, b) for a in range(3) for b in range(3) if a != b]
        B = np.zeros((3, 3), int)
        for k, (a, b) in enumerate(pairs):
            if m >> k & 1:
                B[a, b] = 120 + 30 * k
        for i in range(ctx.n(2, 12)):
            jobs += [("dot", (ctx.seed, 19, m, i), B.tolist()), ("hl", (ctx.seed, 20, m, i), B.tolist())]
    jobs += [("dot", (ctx.seed, 21, i)) for i in range(ctx.n(1500, 6000))]
    jobs += [("hl", (ctx.seed, 22, i)) for i in range(ctx.n(1500, 6000))]
    traces = pmap(job, jobs, chunk=25) + bad_calls()
    ctx.judge("DrawingTrace", "SPECIFICATION Spec\n", traces, "drawing")
    for k in ("dot", "hl", "refuse"):
        ctx.cover[k] = sum(t["kind"] == k for t in traces)
    ctx.sample(traces[0])
