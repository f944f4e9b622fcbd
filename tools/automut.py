"""automut.py FILE COUNT [SEED]: random syntactic mutants of one source file, run against the quick
checks of the properties anchored in it until one reports (development tool, not used by any check).
Survivors are written to /tmp/automut/<file>.txt."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, copy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")
f, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1
src = open(REPO + "/" + f).read()
tree = ast.parse(src)
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
own = os.environ.get("MUT_PROPS", "").split() or [p["id"] for p in props if f in p["anchors"]["files"]]
COST = {"C06": 120, "C05": 42, "C20": 45, "C22": 36, "C21": 29, "C12": 29, "C27": 30, "C16": 22, "C26": 12, "C02": 11, "C01": 12}
own.sort(key=lambda p: COST.get(p, 10))


class Site:
    def __init__(self, node, new, what):
        self.node, self.new, self.what = node, new, what


def seg(n):
    return ast.get_source_segment(src, n)


sites = []
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.MatMult: None, ast.FloorDiv: "*", ast.Mod: None, ast.BitOr: "&", ast.BitAnd: "|"}
SWAP = {"min": "max", "max": "min", "any": "all", "all": "any", "argmin": "argmax", "argmax": "argmin", "append": None, "mean": "median", "median": "mean", "zeros": "ones", "ones": "zeros", "hstack": "vstack", "sum": "max", "ascending": None, "sorted": "list", "shape": None, "fmax": "fmin", "cdist": None, "union": "intersection", "intersection": "union", "combinations": None, "setdiff1d": "union1d", "abs": None}


def walk(node, parents):
    for ch in ast.iter_child_nodes(node):
        if isinstance(node, (ast.Raise,)):
            continue
        if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant):
            continue
        yield ch, parents + [node]
        yield from walk(ch, parents + [node])


for n, ps in walk(tree, []):
    if not any(isinstance(p, (ast.FunctionDef,)) for p in ps) or not hasattr(n, "lineno"):
        continue
    if any(isinstance(p, ast.arguments) for p in ps):
        continue
    s = seg(n)
    if s is None:
        continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        l, r = seg(n.left), seg(n.comparators[0])
        for o in CMP.get(type(n.ops[0]), []):
            sites.append(Site(n, "%s %s %s" % (l, o, r), "cmp"))
    elif isinstance(n, ast.BinOp) and BIN.get(type(n.op)):
        if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not isinstance(n.left, ast.JoinedStr):
            sites.append(Site(n, "%s %s %s" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "bin"))
    elif isinstance(n, ast.BoolOp):
        o = " or " if isinstance(n.op, ast.And) else " and "
        sites.append(Site(n, o.join("(%s)" % seg(v) for v in n.values), "bool"))
        for k in range(len(n.values)):
            sites.append(Site(n, (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % seg(v) for i, v in enumerate(n.values) if i != k) , "dropterm"))
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)) and not isinstance(n.operand, ast.Constant):
        sites.append(Site(n, "(%s)" % seg(n.operand), "unary"))
    elif isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            sites.append(Site(n, str(not n.value), "const"))
        elif isinstance(n.value, int):
            sites.append(Site(n, str(n.value + 1), "const"))
            sites.append(Site(n, "(%d)" % (n.value - 1), "const"))
        elif isinstance(n.value, float):
            sites.append(Site(n, repr(n.value * 2 if n.value else 1.0), "const"))
    elif isinstance(n, ast.Attribute) and SWAP.get(n.attr):
        sites.append(Site(n, s[: -len(n.attr)] + SWAP[n.attr], "name"))
    elif isinstance(n, ast.Name) and SWAP.get(n.id):
        sites.append(Site(n, SWAP[n.id], "name"))
    elif isinstance(n, ast.Attribute) and n.attr == "T":
        sites.append(Site(n, s[:-2], "noT"))
    elif isinstance(n, ast.Call):
        if len(n.args) == 2 and not n.keywords and all(isinstance(a, (ast.Name, ast.Subscript, ast.Attribute)) for a in n.args):
            sites.append(Site(n, "%s(%s, %s)" % (seg(n.func), seg(n.args[1]), seg(n.args[0])), "swapargs"))
        for k in range(len(n.keywords)):
            rest = [seg(a) for a in n.args] + ["%s=%s" % (q.arg, seg(q.value)) if q.arg else "**" + seg(q.value) for i, q in enumerate(n.keywords) if i != k]
            sites.append(Site(n, "%s(%s)" % (seg(n.func), ", ".join(rest)), "dropkw"))
        if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            sites.append(Site(n, seg(n.func.value), "nocopy"))
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy", "sort", "unique", "array", "abs", "tuple", "sorted", "list", "set") and len(n.args) == 1:
            sites.append(Site(n, "(%s)" % seg(n.args[0]), "unwrap"))
        if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "set", "abs", "tuple", "reversed", "check_array", "int") and len(n.args) == 1 and not n.keywords:
            sites.append(Site(n, "(%s)" % seg(n.args[0]), "unwrap"))
    elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 and isinstance(n.ctx, ast.Load):
        a, b = n.slice.elts
        if not isinstance(a, ast.Slice) and not isinstance(b, ast.Slice):
            sites.append(Site(n, "%s[%s, %s]" % (seg(n.value), seg(b), seg(a)), "transpose"))
    elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Break, ast.Continue)) :
        if isinstance(n, ast.Assign) and isinstance(ps[-1], ast.FunctionDef) and ps[-1].name == "__init__":
            continue
        sites.append(Site(n, "pass", "drop"))
    elif isinstance(n, ast.If):
        sites.append(Site(n.test, "True", "iftrue"))
        sites.append(Site(n.test, "False", "iffalse"))

lines = src.split("\n")
off = [0]
for l in lines:
    off.append(off[-1] + len(l.encode()) + 1)
sb = src.encode()


def apply(st):
    a = off[st.node.lineno - 1] + st.node.col_offset
    b = off[st.node.end_lineno - 1] + st.node.end_col_offset
    new = st.new if st.what in ("drop", "const", "name") else "(" + st.new + ")"
    if st.what in ("cmp", "bin", "bool", "dropterm", "unary", "iftrue", "iffalse", "noT", "swapargs", "dropkw", "nocopy", "unwrap", "transpose"):
        new = "(" + st.new + ")"
    return (sb[:a] + new.encode() + sb[b:]).decode()


random.seed(seed)
random.shuffle(sites)
os.makedirs("/tmp/automut", exist_ok=True)
out = "/tmp/automut/%s.txt" % f.replace("/", "_")
done = 0
lo, hi = (int(x) for x in os.environ.get("MUT_LINES", "0-99999").split("-"))
for st in sites:
    if done >= count:
        break
    if not lo <= st.node.lineno <= hi or not st.new.strip():
        continue
    try:
        m = apply(st)
        if m == src or ast.dump(ast.parse(m)) == ast.dump(tree):
            continue
    except SyntaxError:
        continue
    done += 1
    work = tempfile.mkdtemp(prefix="am_", dir="/tmp")
    try:
        shutil.copytree(REPO + "/lingam", work + "/lingam", ignore=shutil.ignore_patterns("__pycache__"))
        open(work + "/" + f, "w").write(m)
        if subprocess.run([sys.executable, "-c", "import ast"], capture_output=True).returncode:
            continue
        by, odd = None, []
        for p in own:
            try:
                c = subprocess.run(["./run.sh", p, "quick"], cwd=ROOT, env=dict(os.environ, VERIF_REPO=work, VERIF_SEED="1", VERIF_EVIDENCE=work), capture_output=True, text=True, timeout=900)
                rc = c.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc == 1:
                by = p
                break
            if rc != 0:
                odd.append((p, rc))
        old = seg(st.node).split("\n")[0][:90]
        line = "%s:%d %s  [%s] -> [%s]  %s %s" % (f, st.node.lineno, st.what, old, st.new.split("\n")[0][:90], by or "SURVIVED", odd or "")
        print(line, flush=True)
        if not by or odd:
            open(out, "a").write(line + "\n")
    finally:
        shutil.rmtree(work)
