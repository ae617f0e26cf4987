"""
Mutation sampling: python3 tools/mutate.py FILE.py COUNT SEED [RUNNERS]

Random small changes to one module of pyoptmat, each in a scratch copy under /tmp, against the quick checks of the
properties that speak about that module (at a fraction of their size, then in full for survivors).  Prints survivors.
"""
import ast, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

PROPS = {
    "solvers": "P08 P09 P05", "chunktime": "P06 P07 P05 P02", "ode": "P03 P02 P04 P01 P05", "utility": "P21 P22 P31 P10 P13",
    "temperature": "P19 P29", "scaling": "P20", "hardening": "P13 P14 P29", "flowrules": "P10 P11 P12 P29", "damage": "P15 P29",
    "models": "P16 P18 P17 P30", "experiments": "P24 P25 P23", "optimize": "P20 P27 P28 P26", "neuralode": "P22",
}
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
NAMES = {"max": "min", "min": "max", "any": "all", "all": "any", "logical_and": "logical_or", "logical_or": "logical_and", "zeros_like": "ones_like",
         "ones_like": "zeros_like", "cumsum": "cumprod", "flip": "clone", "sum": "prod"}
IDENT = {"abs", "sign", "clone", "detach", "relu", "clamp", "contiguous", "requires_grad_", "flip", "sqrt", "log", "exp"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []

    def add(n, new, why):
        s, e = pos(n)
        out.append((n.lineno, why, (b[:s] + new.encode() + b[e:]).decode()))

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            add(n, f"({seg(n.left)} {SWAP[type(n.ops[0])]} {seg(n.comparators[0])})", "comparison")
        if isinstance(n, ast.BinOp):
            a, c = seg(n.left), seg(n.right)
            t = type(n.op)
            if t in (ast.Add, ast.Sub):
                add(n, f"(({a}) {'-' if t is ast.Add else '+'} ({c}))", "sign")
                add(n, f"({a})", "drop right term")
            if t in (ast.Mult, ast.Div):
                add(n, f"(({a}) {'/' if t is ast.Mult else '*'} ({c}))", "times/divide")
                add(n, f"({a})", "drop right factor")
            if t is ast.Pow:
                add(n, f"(({a}) ** (({c}) * 1.01))", "power")
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                add(n, str(not n.value), "flag")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "constant+1")
                if n.value > 0:
                    add(n, str(n.value - 1), "constant-1")
            else:
                add(n, repr(n.value * 1.01 + 1e-3), "constant")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, f"({seg(n.operand)})", "drop minus/not")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join(f"({seg(v)})" for v in n.values) + ")", "and/or")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            f = n.func.attr
            base = seg(n.func.value)
            if f in NAMES:
                add(n, seg(n).replace(f"{base}.{f}", f"{base}.{NAMES[f]}", 1), f"{f}->{NAMES[f]}")
            if f in IDENT:
                add(n, f"({seg(n.args[0])})" if base == "torch" and n.args else f"({base})" if base != "torch" else seg(n), f"drop {f}")
        if isinstance(n, (ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(n, "pass", "drop statement")
        if isinstance(n, ast.If):
            add(n.test, f"(not ({seg(n.test)}))", "negate condition")
            add(n.test, "False", "condition never")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            pass
    seen, res = set(), []
    for m in out:
        try:
            compile(m[2], "m", "exec")
        except SyntaxError:
            continue
        if m[2] != src and m[2] not in seen:
            seen.add(m[2])
            res.append(m)
    return res


def docline(src, ln):
    return src.split("\n")[ln - 1].strip()


def run(w, mod, m, mult, jobs, props):
    d = f"/tmp/mut/{mod}.{os.getpid()}.{w}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo/pyoptmat", d + "/pyoptmat", ignore=shutil.ignore_patterns("__pycache__"))
    open(f"{d}/pyoptmat/{mod}.py", "w").write(m[2])
    env = {**os.environ, "PYOPTMAT_REPO": d, "VERIF_SEED": "1", "VERIF_MULT": str(mult), "VERIF_JOBS": str(jobs), "VERIF_SHRINK": "1", "PYTHONDONTWRITEBYTECODE": "1",
           "VERIF_SCRATCH": d}
    res = "survived"
    for p in props:
        try:
            r = subprocess.run(["/verif/check", p, "quick"], env=env, capture_output=True, text=True, timeout=600)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -9
        if rc == 1:
            res = p
            break
        if rc != 0:
            res = f"{p} rc {rc}"
            break
    shutil.rmtree(d, ignore_errors=True)
    return res


def main():
    mod, count, seed = sys.argv[1].replace(".py", ""), int(sys.argv[2]), int(sys.argv[3])
    runners = int(sys.argv[4]) if len(sys.argv) > 4 else 3
    src = open(f"/repo/pyoptmat/{mod}.py").read()
    ms = mutants(src)
    random.Random(seed).shuffle(ms)
    pick = sorted(ms[:count])
    props = PROPS[mod].split()
    orig = src.split("\n")

    def job(k):
        m = pick[k]
        r = run(k, mod, m, 0.15, 2, props)
        if r == "survived":
            r = run(k, mod, m, 1.0, 3, props)
        if r == "survived" or " rc " in r:
            new = [l for l in m[2].split("\n")[m[0] - 1 : m[0] + 1]]
            print(f"{mod}:{m[0]} [{m[1]}] {r}\n    - {orig[m[0]-1].strip()}\n    + {new[0].strip()}", flush=True)
        return r

    with ThreadPoolExecutor(runners) as ex:
        rs = list(ex.map(job, range(len(pick))))
    print(f"{mod}: {len(ms)} mutants, {len(pick)} tried, {sum(r == 'survived' for r in rs)} survived", flush=True)


main()
