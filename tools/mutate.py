"""Mutation survey: small source changes in a copy of /repo, and which checks notice.

usage: mutate.py FILE N [--seed S] [--workers W] [--func NAME]     (FILE relative to dattri/)
Survivors are appended to /tmp/mut/<file>.txt with their diff.  Not part of any check.
"""
import argparse, ast, difflib, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = ["P14", "P16", "P18", "P15", "P17"]
MAP = [
    ("func/projection.py", ["P22", "P23", "P28", "P12", "P08", "P07"]),
    ("func/hessian.py", ["P19", "P20", "P02", "P03", "P04", "P01"]),
    ("func/fisher.py", ["P21", "P06", "P05"]),
    ("func/utils.py", ["P24", "P25", "P19", "P01", "P08"]),
    ("algorithm/influence_function.py", ["P01", "P02", "P03", "P04", "P05", "P06"] + GEN),
    ("algorithm/base.py", ["P01", "P07"] + GEN + ["P05", "P25"]),
    ("algorithm/tracin.py", ["P07"] + GEN),
    ("algorithm/trak.py", ["P08"] + GEN),
    ("algorithm/rps.py", ["P09"] + GEN),
    ("algorithm/data_shapley.py", ["P10"] + GEN),
    ("algorithm/dvemb.py", ["P11"] + GEN),
    ("algorithm/utils.py", ["P14", "P18", "P17", "P07", "P08", "P12"]),
    ("algorithm/logra.py", ["P12", "P28", "P13"] + GEN),
    ("algorithm/factgrass.py", ["P12", "P28", "P13"] + GEN),
    ("algorithm/block_projected_if/block", ["P12", "P13", "P28"] + GEN),
    ("algorithm/block_projected_if/core", ["P28", "P12", "P13", "P26"] + GEN),
    ("algorithm/block_projected_if/offload", ["P26", "P13", "P27", "P12", "P14", "P15"]),
    ("task.py", ["P25", "P24", "P07", "P01", "P11"] + GEN),
    ("metric", ["P29", "P30", "P31"]),
    ("model_util", ["P32", "P34", "P31", "P33"]),
    ("script", ["P32", "P31"]),
    ("params", ["P22", "P28", "P12"]),
    ("benchmark/models/nanoGPT/model", ["P35", "P38", "P36"]),
    ("benchmark/models/nanoGPT", ["P38", "P32", "P35"]),
    ("benchmark/datasets", ["P37", "P36", "P33", "P35"]),
    ("benchmark/load.py", ["P37"]),
    ("benchmark/utils.py", ["P33", "P37", "P36"]),
    ("benchmark", ["P35", "P36", "P37", "P34", "P33"]),
]
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
       ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Pow: "*", ast.Mod: "//"}
DROP = {"detach", "clone", "abs", "sqrt", "double", "t", "flatten", "sum", "mean", "cpu", "float", "contiguous", "squeeze", "unsqueeze", "items", "copy", "reshape", "eval",
        "train", "conj", "pow", "exp", "log", "sort", "zero_", "t_", "transpose", "norm", "no_grad", "sorted", "list", "reversed", "int", "set", "max", "min"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, z = span(n)
        return b[a:z].decode()
    out = []

    def add(n, new, kind):
        a, z = span(n)
        out.append((n.lineno, kind, (b[:a] + new.encode() + b[z:]).decode()))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            fn = n.name
            kids = list(n.body)
            if not isinstance(n, ast.ClassDef):
                kids += n.args.defaults + [d for d in n.args.kw_defaults if d]
            kids += n.decorator_list
            for k in kids:
                visit(k, fn)
            return
        if isinstance(n, ast.Raise) or isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        t = ""
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            t = text(n.value.func)
            if any(w in t for w in ("_check_shuffle", "print", "warn", "logg", "info", "debug", "add_argument", "tqdm", "raise")):
                return
            add(n, "pass", "drop-stmt")
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value, fn)
            return
        if isinstance(n, ast.AugAssign):
            add(n, "pass", "drop-aug")
            tgt, val = text(n.target), text(n.value)
            add(n, f"{tgt} = {val}", "aug-to-assign")
        if isinstance(n, (ast.Continue, ast.Break)):
            add(n, "pass", "drop-jump")
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and "__name__" not in text(n.test) and "cuda" not in text(n.test) and "TYPE_CHECKING" not in text(n.test):
            only_raise = isinstance(n, ast.If) and len(n.body) <= 2 and isinstance(n.body[-1], ast.Raise) and not n.orelse
            if not only_raise:
                if not isinstance(n, ast.While):
                    add(n.test, "True", "if-true")
                    add(n.test, "False", "if-false")
            else:
                return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, f"{text(n.left)} {o} {text(n.comparators[0])}", "cmp")
        if isinstance(n, ast.BinOp):
            l, r = text(n.left), text(n.right)
            if type(n.op) in BIN and not isinstance(n.left, ast.Constant) or not isinstance(getattr(n.left, "value", 0), str):
                if type(n.op) in BIN:
                    add(n, f"({l}) {BIN[type(n.op)]} ({r})", "bin")
            if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult, ast.FloorDiv)):
                add(n, f"({r}) {dict(Sub='-', Div='/', MatMult='@', FloorDiv='//')[type(n.op).__name__]} ({l})", "swap")
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                add(n, f"({l})", "drop-right")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, f"({text(n.operand)})", "unary")
        if isinstance(n, ast.BoolOp):
            vals = [text(v) for v in n.values]
            add(n, (" or " if isinstance(n.op, ast.And) else " and ").join(f"({v})" for v in vals), "bool")
            for i in range(len(vals)):
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({v})" for j, v in enumerate(vals) if j != i) + ")", "bool-drop")
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), "const")
            elif isinstance(v, int):
                add(n, str(v + 1), "const")
                if v > 0:
                    add(n, str(v - 1), "const")
            elif isinstance(v, float):
                add(n, repr(v * 2 if v else 0.5), "const")
            return
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if isinstance(f, ast.Attribute) and name in DROP and not (isinstance(f.value, ast.Name) and f.value.id in ("torch", "np", "F", "self")):
                add(n, f"({text(f.value)})", "drop-call")
            elif name in DROP and len(n.args) == 1 and not n.keywords:
                add(n, f"({text(n.args[0])})", "drop-call")
            args = [text(a) for a in n.args]
            kws = [text(k) if False else f"{k.arg}={text(k.value)}" if k.arg else f"**{text(k.value)}" for k in n.keywords]
            if not (t and any(w in t for w in ("_check_shuffle", "print",))):
                for i in range(len(kws)):
                    add(n, f"{text(f)}({', '.join(args + kws[:i] + kws[i + 1:])})", "drop-kw")
                if len(args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]) and name not in ("isinstance", "hasattr", "getattr", "zeros", "range", "ones", "empty", "min", "max", "equal", "allclose", "zip_", "maximum", "minimum"):
                    add(n, f"{text(f)}({', '.join([args[1], args[0]] + args[2:] + kws)})", "swap-args")
            if any(w in text(f) for w in ("warn", "logg", "print", "ValueError", "Error")):
                return
        if isinstance(n, ast.Attribute) and n.attr in ("T", "mT"):
            add(n, f"({text(n.value)})", "drop-T")
        if isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                add(n, f"{text(n.lower)}:", "slice")
                add(n, f":{text(n.upper)}", "slice")
        if isinstance(n, (ast.JoinedStr,)):
            return
        if isinstance(n, ast.With):
            kept = "if True"
            head = ", ".join(text(i.context_expr) for i in n.items)
            if "no_grad" in head or "lock" in head.lower():
                a, _ = span(n.items[0].context_expr)
                z = span(n.items[-1].context_expr)[1]
                if len(n.items) == 1 and n.items[0].optional_vars is None:
                    out.append((n.lineno, "drop-with", (b[:a] + b"__import__('contextlib').nullcontext()" + b[z:]).decode()))
        for k in ast.iter_child_nodes(n):
            visit(k, fn)
    for k in tree.body:
        visit(k, "<module>")
    ok = []
    for ln, kind, s in out:
        try:
            compile(s, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        if s != src:
            ok.append((ln, kind, s))
    return ok


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("n", type=int)
    ap.add_argument("--seed", default="0")
    ap.add_argument("--workers", type=int, default=3)
    ap.add_argument("--nproc", type=int, default=3)
    ap.add_argument("--lines")
    ap.add_argument("--src", default="/repo")
    a = ap.parse_args()
    ids = next(c for p, c in MAP if a.file.startswith(p))
    path = os.path.join(a.src, "dattri", a.file)
    src = open(path).read()
    ms = mutants(src)
    if a.lines:
        lo, hi = map(int, a.lines.split("-"))
        ms = [m for m in ms if lo <= m[0] <= hi]
    rng = random.Random(a.seed)
    rng.shuffle(ms)
    total = len(ms)
    ms = ms[:a.n]
    os.makedirs("/tmp/mut", exist_ok=True)
    outf = "/tmp/mut/" + a.file.replace("/", "_") + ".txt"
    pool = []
    tag = os.getpid()
    for w in range(a.workers):
        d = f"/tmp/mutw_{tag}_{w}"
        os.makedirs(d)
        subprocess.run(["cp", "-a", os.path.join(a.src, "dattri"), d + "/dattri"], check=True)
        pool.append(d)

    def job(m):
        ln, kind, s = m
        d = pool.pop()
        target = os.path.join(d, "dattri", a.file)
        try:
            with open(target, "w") as f:
                f.write(s)
            env = dict(os.environ, VERIF_REPO=d, VMON_FAILFAST="1", VERIF_SEED=str(rng.randrange(1, 6)))
            odd = []
            for pid in ids:
                p = subprocess.Popen([HERE + "/check.sh", pid, "quick", "--nproc", str(a.nproc)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                     text=True, start_new_session=True)
                try:
                    o, _ = p.communicate(timeout=200)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, 9)
                    p.wait()
                    return m, "timeout " + pid
                if p.returncode == 1 and "VIOLATION" in o:
                    return m, "killed " + pid
                if p.returncode:
                    odd.append(f"{pid}:rc{p.returncode}")
                    if p.returncode == 1:
                        return m, "crash " + pid
            return m, "SURVIVED " + " ".join(odd)
        finally:
            with open(target, "w") as f:
                f.write(src)
            pool.append(d)
    stats = {}
    with ThreadPoolExecutor(a.workers) as ex, open(outf, "a") as out:
        for (ln, kind, s), r in ex.map(job, ms):
            stats[r.split()[0]] = stats.get(r.split()[0], 0) + 1
            if r.startswith(("SURV", "timeout", "crash")):
                diff = "".join(list(difflib.unified_diff(src.splitlines(1), s.splitlines(1), n=2))[2:])
                out.write(f"### {a.file}:{ln} {kind} {r}\n{diff}\n")
                out.flush()
    for d in pool:
        shutil.rmtree(d)
    print(a.file, "mutants", total, "run", len(ms), stats)


main()
