"""Systematic small changes of the code under test, used to look for blind spots of the checks (a development tool: no
check runs it).  python tools/mutate.py OUT.jsonl [--files a.py,b.py] [--workers 8] [--limit N]
Each mutant is made in a scratch copy; it is kept when the 115 tests pass, then the checks anchored to its file run on it
(the cheap ones first) until one reports a violation.  OUT gets one line per mutant that passes the tests."""
import argparse, ast, json, os, queue, shutil, subprocess, sys, threading, warnings
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "aero/CompressibleFlow.py": "I02", "aero/Fanno.py": "A11 I01", "aero/Isentropic.py": "A01 I01 I02", "aero/IterativeSolve.py": "E04 A05 A07",
    "aero/MassFlow.py": "A02 A03 I01", "aero/Propulsion.py": "A13", "aero/Rayleigh.py": "A12 I01", "aero/ShockWave.py": "A04 A05 A06 A07 I01 I02 A08",
    "aero/Supersonic.py": "A09 A10 I01", "aero/ThermoKerosen.py": "H01", "aero/ThermoRealGas.py": "H01", "aero/degree.py": "H02",
    "aero/model1D.py": "B01 B02 C03", "aero/nozzle.py": "I02", "aero/refstate.py": "B01 H03 I04", "aero/plot/defaultstyle.py": "I03", "aero/plot/isentropicpolar.py": "I03",
    "aero/plot/shockpolar.py": "I03", "aero/riemann.py": "I02", "aero/unsteady1D.py": "B02 C01", "common/_dev.py": "I02", "common/_ode.py": "E03 A08",
    "common/defaultgas.py": "H03", "common/dicovar.py": "H04", "common/extendvar.py": "H04", "common/numspectral.py": "E01 E02",
    "engine/Cycle_Turbofan.py": "G03", "engine/gasgenerator.py": "G01 G02", "engine/propu_be.py": "G03", "engine/propu_be_double_corps.py": "G03",
    "engine/turbofan.py": "G02", "engine/turbojet.py": "G01 G02", "instance/nozzle.py": "D01 D02 H03", "instance/riemann.py": "C01 C02",
    "instance/unsteady_inflow.py": "C03", "stability/Euler.py": "F01 F02 F05", "stability/OrrSommerfeld.py": "F03 F05", "stability/_base.py": "F04 F05",
}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="]}
SWAP = {"sin": "cos", "cos": "sin", "minimum": "maximum", "maximum": "minimum", "min": "max", "max": "min", "zeros": "ones", "ones": "zeros",
        "MachSub_Sigma": "MachSup_Sigma", "MachSup_Sigma": "MachSub_Sigma", "tan": "sin", "real": "imag", "imag": "real", "argmin": "argmax"}


def mutants(src):
    warnings.simplefilter("ignore")
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
    out = []

    def rep(n, new, what):
        s, e = pos(n)
        out.append((n.lineno, what, seg(n)[:60] + "  ->  " + new[:60], (b[:s] + new.encode() + b[e:]).decode()))

    def between(l, r, new, what, n):
        s, e = pos(l)[1], pos(r)[0]
        out.append((n.lineno, what, seg(n)[:70] + "  [" + new + "]", (b[:s] + (" %s " % new).encode() + b[e:]).decode()))

    def visit(n, fn):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and "__name__" in seg(n.test):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = n
        if isinstance(n, ast.BinOp):
            t = type(n.op)
            if t in OPS:
                # parenthesised operands: only the operator text between them changes when it is plain
                mid = b[pos(n.left)[1]:pos(n.right)[0]].decode()
                sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[t]
                if mid.count(sym) == 1 and "#" not in mid and "\n" not in mid:
                    s, e = pos(n.left)[1], pos(n.right)[0]
                    out.append((n.lineno, "op", seg(n)[:70] + "  [" + OPS[t] + "]", (b[:s] + mid.replace(sym, OPS[t]).encode() + b[e:]).decode()))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            for o in CMP[type(n.ops[0])]:
                mid = b[pos(n.left)[1]:pos(n.comparators[0])[0]].decode()
                if mid.strip() in ("<", ">", "<=", ">=", "==", "!="):
                    between(n.left, n.comparators[0], o, "cmp", n)
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
                rep(n, seg(n.operand), "unary")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            v = n.value
            if isinstance(v, int):
                rep(n, repr(v + 1), "const")
                if v:
                    rep(n, repr(v - 1), "const")
            else:
                rep(n, repr(v * 1.01 if v else 1e-3), "const")
                if v and abs(v) < 1e-2:
                    rep(n, repr(v * 1e3), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, repr(not n.value), "const")
        elif isinstance(n, ast.Call):
            f = n.func
            for i, a in enumerate(n.args):
                if i == len(n.args) - 1 and len(n.args) > 1 and not n.keywords and not isinstance(a, ast.Starred):
                    s, e = pos(n.args[i - 1])[1], pos(a)[1]
                    out.append((n.lineno, "drop arg", seg(n)[:80] + " [-%s]" % seg(a)[:20], (b[:s] + b[e:]).decode()))
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    s = pos(k)[0] if hasattr(k, "lineno") else None
                    e = pos(k)[1]
                    pre = b[:s].decode().rstrip()
                    if pre.endswith(","):
                        out.append((n.lineno, "drop kw", seg(n)[:80] + " [-%s]" % k.arg, pre[:-1] + b[e:].decode()))
            if isinstance(f, ast.Attribute) and f.attr in SWAP:
                s, e = pos(f)
                out.append((n.lineno, "call", seg(n)[:70], (b[:e - len(f.attr)] + SWAP[f.attr].encode() + b[e:]).decode()))
            if isinstance(f, ast.Attribute) and f.attr in ("abs", "sqrt", "square") and len(n.args) == 1:
                rep(n, "(" + seg(n.args[0]) + ")", "uncall")
            if isinstance(f, ast.Attribute) and f.attr == "copy" and not n.args:
                rep(n, seg(f.value), "nocopy")
            if isinstance(f, ast.Attribute) and f.attr == "where" and len(n.args) == 3:
                for k in (1, 2):
                    rep(n, "(" + seg(n.args[k]) + ")", "where")
        elif isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, "(not (" + seg(n.test) + "))", "if")
            if isinstance(n, ast.If):
                rep(n.test, "False", "if")
        elif isinstance(n, ast.BoolOp):
            for v in n.values:
                rep(n, "(" + seg(v) + ")", "bool")
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for x, y in (("left", "right"), ("_L", "_R"), ("rho", "p"), ("u", "p")):
                for p_, q_ in ((x, y), (y, x)):
                    if n.attr == p_ or (len(p_) > 1 and p_ in n.attr and n.attr.replace(p_, q_) in src):
                        e = pos(n)[1]
                        out.append((n.lineno, "attr", seg(n)[:70] + " -> ." + n.attr.replace(p_, q_), (b[:e - len(n.attr)] + n.attr.replace(p_, q_).encode() + b[e:]).decode()))
        if isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(fn, ast.FunctionDef):
            rep(n, "pass", "delete")
            if isinstance(n, ast.AugAssign):
                s = seg(n)
                for x, y in (("+=", "-="), ("-=", "+="), ("*=", "/="), ("/=", "*=")):
                    if x in s:
                        rep(n, s.replace(x, y, 1), "aug")
                        break
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(fn, ast.FunctionDef):
            rep(n, "pass", "delete")
        # another parameter of the function, or its default
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and isinstance(fn, ast.FunctionDef) and n.id in ("gamma", "gam", "g"):
            rep(n, "1.4", "gamma")
        for c in ast.iter_child_nodes(n):
            visit(c, fn)
    visit(tree, None)
    seen, res = {src}, []
    for m in out:
        if m[3] in seen:
            continue
        seen.add(m[3])
        try:
            ast.parse(m[3])
        except SyntaxError:
            continue
        res.append(m)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--limit", type=int)
    ap.add_argument("--again", help="results file: only the survivors in it, full checks")
    a = ap.parse_args()
    jobs = queue.Queue()
    only = a.files.split(",") if a.files else list(MAP)
    surv = {(d["file"], d["line"], d["what"], d["change"]) for d in map(json.loads, open(a.again)) if not d["killed"]} if a.again else None
    tot = 0
    for f in only:
        src = open("/repo/aerokit/" + f).read()
        ms = mutants(src)
        for m in ms[: a.limit]:
            if surv is None or (f, m[0], m[1], m[2]) in surv:
                jobs.put((f, m))
                tot += 1
    print(tot, "mutants", flush=True)
    lock = threading.Lock()
    out = open(a.out, "a")
    n = [0, 0, 0]

    def work(k):
        d = "/tmp/mut/w%d" % k
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run("cp -a /repo %s/repo; mkdir %s/verif; cd %s && cp -a rv check *.json* %s/verif/; ls *.txt >/dev/null 2>&1 && cp *.txt %s/verif/" % (d, d, V, d, d), shell=True, capture_output=True)
        env = dict(os.environ, PYTHONPATH=d + "/repo", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VERIF_REPO=d + "/repo")
        while True:
            try:
                f, m = jobs.get_nowait()
            except queue.Empty:
                break
            p = d + "/repo/aerokit/" + f
            src = open(p).read()
            open(p, "w").write(m[3])
            try:
                try:
                    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-cov", "-p", "no:cacheprovider", "tests"], cwd=d + "/repo", env=env, capture_output=True, text=True, timeout=120)
                    ok = t.returncode == 0 and "115 passed" in t.stdout
                except subprocess.TimeoutExpired:
                    ok = False
                n[0] += 1
                if not ok:
                    continue
                by, log = None, {}
                for c in MAP[f].split():
                    try:
                        r = subprocess.run(["./check", c, "--seed", "1"], cwd=d + "/verif", env=env, capture_output=True, text=True, timeout=900)
                        log[c] = r.returncode
                        if r.returncode == 1:
                            by = c
                            break
                    except subprocess.TimeoutExpired:
                        log[c] = "timeout"
                with lock:
                    n[1] += 1
                    n[2] += by is None
                    out.write(json.dumps({"file": f, "line": m[0], "what": m[1], "change": m[2], "killed": by, "log": log}) + "\n")
                    out.flush()
                    if n[1] % 50 == 0:
                        print(n, "left", jobs.qsize(), flush=True)
            finally:
                open(p, "w").write(src)
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print("run %d, pass the tests %d, unseen by the checks %d" % tuple(n))


if __name__ == "__main__":
    main()
