"""Behaviour-preserving rewritings of the code under test, used to look for false alarms (a development tool: no check runs it).
python tools/refactor.py OUTDIR SEED... [--only ID,ID]
Each seed rewrites every module at random places (operands commuted or reassociated, squares and divisions written otherwise,
results named before they are returned, comparisons and branches turned round, loops over indices, renamed locals and private
attributes, statements wrapped in helpers); when the 115 tests pass, every check runs on the result and has to stay quiet."""
import ast, copy, json, os, random, re, shutil, subprocess, sys, warnings
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NO_ARITH = {"extendvar.py", "dicovar.py"}


def numeric(n):
    """expression that cannot be a string or a list"""
    return not any(isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr)) or (isinstance(x, ast.Constant) and isinstance(x.value, str)) for x in ast.walk(n))


def simple(n):
    return isinstance(n, ast.Name) or (isinstance(n, ast.Attribute) and simple(n.value))


class Rewrite(ast.NodeTransformer):
    def __init__(self, rng, arith):
        self.r, self.arith, self.k, self.n = rng, arith, 0, {}

    def on(self, what, p=.4):
        if self.r.random() < p:
            self.n[what] = self.n.get(what, 0) + 1
            return True
        return False

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if not self.arith or not numeric(n):
            return n
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and simple(n.left) and self.on("square"):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        if isinstance(n.op, (ast.Add, ast.Mult)) and self.on("commute"):
            return ast.BinOp(n.right, n.op, n.left)
        if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Mult) and self.on("reassociate"):
            return ast.BinOp(n.left.left, ast.Mult(), ast.BinOp(n.left.right, ast.Mult(), n.right))
        if isinstance(n.op, ast.Div) and not isinstance(n.right, ast.Constant) and self.on("divide", .15):
            return ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(1.0), ast.Div(), n.right))
        if isinstance(n.op, ast.Sub) and self.on("subtract", .2):
            return ast.BinOp(ast.UnaryOp(ast.USub(), n.right), ast.Add(), n.left)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq}
        if len(n.ops) == 1 and type(n.ops[0]) in m and self.on("compare"):
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body) if self.on("ifexp") else n

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and "__name__" not in ast.dump(n.test) and self.on("if"):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        out = []
        gen = any(isinstance(x, (ast.Yield, ast.Global, ast.Nonlocal)) for x in ast.walk(n))
        for s in n.body:
            if isinstance(s, ast.Return) and s.value is not None and self.on("name result"):
                self.k += 1
                nm = "out_%d" % self.k
                out += [ast.Assign([ast.Name(nm, ast.Store())], s.value, lineno=0), ast.Return(ast.Name(nm, ast.Load()))]
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and simple(s.targets[0]) and not isinstance(s.value, (ast.Constant, ast.Name)) and not gen and self.on("helper", .2):
                self.k += 1
                nm = "_part_%d" % self.k
                loc = {t.id for x in ast.walk(n) for t in ([x] if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) else [])}
                if loc & {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)} and any(isinstance(x, ast.Lambda) for x in ast.walk(s.value)):
                    out.append(s)
                    continue
                a = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
                out += [ast.FunctionDef(nm, a, [ast.Return(s.value)], [], lineno=0),
                        ast.Assign(s.targets, ast.Call(ast.Name(nm, ast.Load()), [], []), lineno=0)]
            else:
                out.append(s)
        n.body = out
        return n


def rename_locals(tree, rng):
    """local variables of the innermost functions"""
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        inner = [x for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp)) and x is not f]
        glob = {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        if inner:
            continue
        args = {a.arg for a in f.args.args + f.args.kwonlyargs} | ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set())
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args - glob
        m = {v: v + "_v" for v in loc if rng.random() < .5}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]


def private(repo, rng):
    """names of private attributes and functions, renamed in every module"""
    files = [os.path.join(d, f) for d, _, fs in os.walk(repo + "/aerokit") for f in fs if f.endswith(".py")]
    tests = "".join(open(os.path.join(d, f)).read() for d, _, fs in os.walk(repo + "/tests") for f in fs if f.endswith(".py"))
    src = {f: open(f).read() for f in files}
    names = set(re.findall(r"self\.(_[a-z]\w*)", "".join(src.values()))) | set(re.findall(r"def (_[a-z]\w*)", "".join(src.values())))
    names = sorted(n for n in names if not re.search(r"\b%s\b" % n, tests) and not n.startswith("__"))
    skip = {"_gamma", "_r", "_ode", "_base", "_dev", "_rkf45"}
    pick = [n for n in names if n not in skip and rng.random() < .6]
    for f, s in src.items():
        for n in pick:
            s = re.sub(r"\b%s\b" % n, n + "_p", s)
        open(f, "w").write(s)
    return pick


def build(d, seed):
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d + "/repo", symlinks=True)
    rng = random.Random(seed)
    tot = {}
    warnings.simplefilter("ignore")
    for dd, _, fs in os.walk(d + "/repo/aerokit"):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(dd, f)
                t = ast.parse(open(p).read())
                w = Rewrite(rng, f not in NO_ARITH)
                t = w.visit(t)
                rename_locals(t, rng)
                ast.fix_missing_locations(t)
                open(p, "w").write(ast.unparse(t) + "\n")
                for k, v in w.n.items():
                    tot[k] = tot.get(k, 0) + v
    tot["private names"] = len(private(d + "/repo", rng)) if seed % 2 else 0
    return tot


def main():
    out, seeds = sys.argv[1], [int(x) for x in sys.argv[2:] if x.isdigit()]
    only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
    ids = [c["property_id"] if "property_id" in c else c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    os.makedirs(out, exist_ok=True)
    for seed in seeds:
        d = "/tmp/refactor%d" % seed
        tot = build(d, seed)
        env = dict(os.environ, PYTHONPATH=d + "/repo", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "--no-cov", "-p", "no:cacheprovider", "tests"], cwd=d + "/repo", env=env, capture_output=True, text=True)
        print(seed, tot, t.stdout.strip().splitlines()[-1], flush=True)
        if t.returncode:
            print(t.stdout[-1500:])
            continue
        cmd = "cd %s; echo %s | tr ' ' '\\n' | VERIF_REPO=%s/repo xargs -P 8 -I@ sh -c './check @ --seed %d > %s/%d.@ 2>&1'" % (V, " ".join(only or ids), d, seed, out, seed)
        subprocess.run(cmd, shell=True)
        for i in only or ids:
            s = open("%s/%d.%s" % (out, seed, i)).read()
            if "VIOLATION" in s or not s.strip().splitlines()[-1].startswith("OK"):
                print("  ALARM", seed, i, s[:600], flush=True)
        if "--keep" not in sys.argv:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
