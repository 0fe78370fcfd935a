"""Development aid, not a check: systematic small mutations of one source file, each judged by the given checks.

usage: mutate.py FILE CHECKS(comma separated) OUT.jsonl [--frac A/B] [--func regex] [--tests]
Every mutant is applied in a scratch copy of /repo; a check runs there (VERIF_REPO) until one reports a violation.
Survivors are either equivalent, outside every property, or a gap of the checks; they are read by hand.
"""
import ast, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.Mod: '*', ast.FloorDiv: '/'}
SKIP = re.compile(r"^(__repr__|_status_message.*|_progress_bar|custom_formatwarning|isnotebook)$")


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        i, j = pos(n)
        return b[i:j].decode()

    out = []

    def add(n, new, kind):
        i, j = pos(n)
        if b[i:j].decode() != new:
            out.append((i, j, new, kind, n.lineno))

    def visit(n, func, top):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if SKIP.match(n.name):
                return
            func = (func + "." if func else "") + n.name
            if isinstance(n, ast.FunctionDef):
                top = False
                for d in n.args.defaults:
                    if isinstance(d, ast.Constant) and isinstance(d.value, bool):
                        add(d, str(not d.value), "default:" + func)
                    elif isinstance(d, ast.Constant) and isinstance(d.value, (int, float)):
                        add(d, repr(d.value * 2 + 1), "default:" + func)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            return
        if isinstance(n, (ast.Assert,)):
            add(n, "pass", "noassert:" + func)
            visit(n.test, func, top)
            return
        if isinstance(n, ast.Raise):
            add(n, "pass", "noraise:" + func)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            if t in CMP:
                add(n, "%s %s %s" % (text(n.left), CMP[t], text(n.comparators[0])), "cmp:" + func)
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(%s)" % text(v) for v in n.values) + ")", "bool:" + func)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) \
                and not (isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
            add(n, "(%s) %s (%s)" % (text(n.left), BIN[type(n.op)], text(n.right)), "bin:" + func)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            add(n, "(%s)" % text(n.operand), "unary:" + func)
        if isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "True", "if:" + func)
            add(n.test, "False", "if:" + func)
        if isinstance(n, ast.Constant) and not top:
            if isinstance(n.value, bool):
                add(n, str(not n.value), "const:" + func)
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const:" + func)
                if n.value > 0:
                    add(n, str(n.value - 1), "const:" + func)
            elif isinstance(n.value, float):
                add(n, repr(n.value * 1.01 + (n.value == 0)), "const:" + func)
        if func and isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) or (func and isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value.func, ast.Name) and n.value.func.id == "print"):
                add(n, "pass", "del:" + func)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Return) and func and n.value is not None and not isinstance(n.value, ast.Constant) and False:
            add(n, "return None", "ret:" + func)
        for c in ast.iter_child_nodes(n):
            visit(c, func, top)

    visit(tree, "", True)
    good = []
    for i, j, new, kind, line in out:
        m = (b[:i] + new.encode() + b[j:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        good.append((m, "%s:%d %s -> %s" % (kind, line, b[i:j].decode()[:100], new[:100])))
    return good


def main():
    f, checks, out = sys.argv[1], sys.argv[2].split(","), sys.argv[3]
    frac = (0, 1)
    func = None
    if "--frac" in sys.argv:
        frac = tuple(map(int, sys.argv[sys.argv.index("--frac") + 1].split("/")))
    if "--func" in sys.argv:
        func = re.compile(sys.argv[sys.argv.index("--func") + 1])
    src = open(os.path.join("/repo", f)).read()
    d = tempfile.mkdtemp(prefix="mut_")
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git", "build", "docs"))
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["mutant"] for l in open(out)}
    so = [x for x in os.listdir("/repo/radvel") if x.startswith("_kepler") and x.endswith(".so")][0]
    ms = [m for m in mutants(src) if (func is None or func.search(m[1].split(" ")[0]))]
    ms = [m for m in ms if int(hashlib.md5(m[1].encode()).hexdigest(), 16) % frac[1] == frac[0]]
    print(len(ms), "mutants")
    try:
        for m, what in ms:
            if what in done:
                continue
            open(os.path.join(d, "repo", f), "w").write(m)
            verdict, t0 = None, time.time()
            for c in checks:
                env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_FIRST="1", VERIF_EXT=os.path.join("/repo/radvel", so), VERIF_NOEVIDENCE="1")
                try:
                    p = subprocess.run(["nice", "./check", c], cwd="/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                    rc, txt = p.returncode, p.stdout.decode(errors="replace")
                except subprocess.TimeoutExpired:
                    rc, txt = "timeout", ""
                if rc != 0:
                    sig = re.search(r"signature: (.*)", txt)
                    verdict = "%s rc=%s %s" % (c, rc, sig.group(1) if sig else txt[-150:].replace("\n", " "))
                    break
            with open(out, "a") as g:
                g.write(json.dumps(dict(file=f, mutant=what, verdict=verdict, t=round(time.time() - t0, 1))) + "\n")
    finally:
        shutil.rmtree(d, ignore_errors=True)


main()
