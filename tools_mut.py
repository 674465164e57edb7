"""Mutation survey (development only; not used by MANIFEST.json).

tools_mut.py REPOCOPY OUT NWORK SPEC...   SPEC = PROP=FILE:FUNCREGEX[:N]
Every mutant is one small change of one expression or statement; each is run against PROP's check
with early stop; the survivors are written to OUT.
"""
import ast, os, random, re, shutil, subprocess, sys, queue, threading

repo, out, nwork, *specs = sys.argv[1:]
SKIPCALL = {"warn", "ValueError", "KeyError", "NotImplementedError", "RuntimeError", "TypeError", "IndexError", "AttributeError"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&"}


class V(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.m = src, []
        self.off = [0]
        for l in src.splitlines(keepends=True):
            self.off.append(self.off[-1] + len(l))

    def sp(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.sp(n)
        return self.src[a:b]

    def add(self, n, new, k):
        a, b = self.sp(n)
        self.m.append((a, b, new, k, n.lineno))

    def visit_Raise(self, n):
        pass

    def visit_Assert(self, n):
        pass

    def visit_Call(self, n):
        f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
        if f in SKIPCALL:
            return
        if f in ("copy", "deepcopy") and isinstance(n.func, ast.Attribute) and not n.args:
            self.add(n, self.seg(n.func.value), "nocopy")
        if f in ("conj", "conjugate", "abs", "sort", "unique", "argsort", "sorted", "deepcopy", "logical_not", "squeeze", "array", "int", "float", "str") and len(n.args) == 1:
            self.add(n, self.seg(n.args[0]), "drop " + f)
        sw = {"min": "max", "max": "min", "any": "all", "all": "any", "logical_or": "logical_and", "logical_and": "logical_or", "zeros": "ones", "ones": "zeros", "union": "intersection", "floor": "ceil", "ceil": "floor", "union1d": "intersect1d", "zeros_like": "ones_like", "ones_like": "zeros_like", "cos": "sin", "sin": "cos"}
        if f in sw and isinstance(n.func, ast.Attribute):
            self.add(n.func, self.seg(n.func.value) + "." + sw[f], "swap")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            self.add(n, f"({self.seg(n.left)} {CMP[type(n.ops[0])]} {self.seg(n.comparators[0])})", "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not any(isinstance(x, (ast.JoinedStr,)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)):
            self.add(n, f"({self.seg(n.left)} {BIN[type(n.op)]} {self.seg(n.right)})", "bin")
        if not isinstance(n.left, ast.Constant) or not isinstance(n.left.value, str):
            self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + op.join("(" + self.seg(v) + ")" for v in n.values) + ")", "bool")
        if len(n.values) > 1:
            for i in range(len(n.values)):
                o = " and " if isinstance(n.op, ast.And) else " or "
                self.add(n, "(" + o.join("(" + self.seg(v) + ")" for j, v in enumerate(n.values) if j != i) + ")", "dropcond")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            self.add(n, "(" + self.seg(n.operand) + ")", "unary")
        if isinstance(n.operand, ast.Constant):
            return
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value), "const")
        elif isinstance(n.value, int):
            self.add(n, str({0: 1, 1: 0}.get(n.value, n.value + 1)), "const")

    def visit_If(self, n):
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(n, "pass", "del")
        self.generic_visit(n.value) if not isinstance(n.value, ast.Constant) else self.visit(n.value)
        self.visit(n.value)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "del")
        self.visit(n.value)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call):
            f = n.value.func
            f = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if f in ("warn", "check", "join"):
                return
            self.add(n, "pass", "del")
        self.visit(n.value)

    def visit_FunctionDef(self, n):
        for s in n.body:
            self.visit(s)


def mutants(path, rx):
    src = open(path).read()
    assert src.isascii() or True
    t = ast.parse(src)
    v = V(src)
    for n in ast.walk(t):
        if isinstance(n, ast.FunctionDef) and re.fullmatch(rx, n.name):
            v.visit(n)
    seen, r = set(), []
    for m in v.m:
        if m[:3] in seen:
            continue
        new = src[: m[0]] + m[2] + src[m[1] :]
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        seen.add(m[:3])
        r.append((m, new))
    return src, r


q = queue.Queue()
rng = random.Random(int(os.environ.get("MSEED", "1")))
jobs = []
for s in specs:
    prop, rest = s.split("=", 1)
    p = rest.split(":")
    f, rx, n = p[0], p[1], int(p[2]) if len(p) > 2 else 10
    src, ms = mutants(f"{repo}/src/pyuvdata/{f}", rx)
    k = rng.sample(ms, min(n, len(ms)))
    print(s, len(ms), "mutants", len(k), "taken", flush=True)
    jobs += [(prop, f, src, m) for m in k]
rng.shuffle(jobs)
for j in jobs:
    q.put(j)
lock = threading.Lock()


def work(i):
    w = f"/tmp/mt/w{i}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree(f"{repo}/src", w + "/src", ignore=shutil.ignore_patterns("data_", "tests", "__pycache__"))
    while True:
        try:
            prop, f, src, (m, new) = q.get_nowait()
        except queue.Empty:
            break
        p = f"{w}/src/pyuvdata/{f}"
        open(p, "w").write(new)
        env = dict(os.environ, VERIF_FF="1", VERIF_JOBS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        try:
            r = subprocess.run(["timeout", "-s", "KILL", "900", "bash", "/verif/tools_dev.sh", w, prop], env=env, capture_output=True, text=True)
            rc, o = r.returncode, r.stdout[-300:] + r.stderr[-200:]
        except Exception as e:
            rc, o = 99, str(e)
        open(p, "w").write(src)
        a = src.rfind("\n", 0, m[0]) + 1
        b = src.find("\n", m[1])
        old = " ".join(src[a:b].split())[:220]
        nw = " ".join((src[a : m[0]] + "⟦" + m[2] + "⟧" + src[m[1] : b]).split())[:260]
        with lock, open(out, "a") as g:
            tag = "killed" if rc == 1 else "SURV" if rc == 0 else f"rc{rc}"
            g.write(f"{tag} {prop} {f}:{m[4]} {m[3]}\n" + (f"   - {old}\n   + {nw}\n" if rc != 1 else ""))
            if rc not in (0, 1):
                g.write("   ! " + " ".join(o.split())[-200:] + "\n")


ts = [threading.Thread(target=work, args=(i,)) for i in range(int(nwork))]
[t.start() for t in ts]
[t.join() for t in ts]
shutil.rmtree("/tmp/mt", ignore_errors=True)
with open(out, "a") as g:
    g.write("DONE\n")
