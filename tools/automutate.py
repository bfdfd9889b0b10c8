#!/usr/bin/env python3
"""Systematic mutation: automutate.py FILE.py [-k REGEX of function] [--props C01,C02]: every small change (operators, constants, conditions, deleted statements,
dropped copies, swapped arguments) of every function, alone, in a scratch copy; those the repository's tests do not notice are given to the checks of the
properties that function is under contract for (concrete runs first, then the contracts; RT=1: only the concrete runs).  Prints the ones no check notices.  JOBS=n."""
import ast, concurrent.futures, copy, glob, importlib, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
fn = sys.argv[1]
only = sys.argv[sys.argv.index("-k") + 1] if "-k" in sys.argv else "."
given = sys.argv[sys.argv.index("--props") + 1].split(",") if "--props" in sys.argv else None
RTONLY = {"C13", "C14"} if not os.environ.get("ALL") else set()
src = open("/repo/nion/utils/" + fn).read()
mod = fn[:-3]


def targets():
    out = {}
    for f in glob.glob(HERE + "/contracts/*.py"):
        for m in re.finditer(r'@contract\("([^"]+)",\s*(\[[^\]]*\]|"[^"]*")', open(f).read()):
            ts = ast.literal_eval(m.group(2))
            for t in ts if isinstance(ts, list) else [ts]:
                out.setdefault(t, set()).update(m.group(1).split())
    return out


def sites(tree):
    """(qualified function, node path, description, replacement maker)"""
    def walk(node, qual):
        for field, value in ast.iter_fields(node):
            for idx, child in enumerate(value) if isinstance(value, list) else [(None, value)]:
                if not isinstance(child, ast.AST):
                    continue
                q = qual + "." + child.name if isinstance(child, (ast.FunctionDef, ast.ClassDef)) else qual
                if isinstance(child, ast.FunctionDef) or q != mod:
                    yield (q, node, field, idx, child)
                if isinstance(child, (ast.arguments,)):
                    continue
                yield from walk(child, q)
    yield from walk(tree, mod)


SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div}


def variants(c, field):
    if isinstance(c, ast.Compare) and len(c.ops) == 1:
        n = copy.deepcopy(c)
        n.ops = [SWAP[type(c.ops[0])]()]
        yield n
        if isinstance(c.ops[0], ast.IsNot) and isinstance(c.comparators[0], ast.Constant) and c.comparators[0].value is None:
            yield copy.deepcopy(c.left)
        if isinstance(c.ops[0], ast.Is) and isinstance(c.comparators[0], ast.Constant) and c.comparators[0].value is None:
            yield ast.UnaryOp(ast.Not(), copy.deepcopy(c.left))
        if isinstance(c.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            n = copy.deepcopy(c)
            n.ops = [{ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(c.ops[0])]()]
            yield n
    if isinstance(c, ast.BinOp) and type(c.op) in BIN:
        n = copy.deepcopy(c)
        n.op = BIN[type(c.op)]()
        yield n
        yield copy.deepcopy(c.left)
    if isinstance(c, ast.Constant) and field not in ("annotation", "returns"):
        if c.value is True or c.value is False:
            yield ast.Constant(not c.value)
        elif isinstance(c.value, (int, float)):
            yield ast.Constant(c.value + 1)
            if c.value:
                yield ast.Constant(0)
        elif isinstance(c.value, str) and field not in ("value",) and len(c.value) < 30:
            yield ast.Constant(c.value + "x")
    if isinstance(c, ast.BoolOp):
        n = copy.deepcopy(c)
        n.op = ast.Or() if isinstance(c.op, ast.And) else ast.And()
        yield n
        for k in range(len(c.values)):
            rest = [copy.deepcopy(v) for j, v in enumerate(c.values) if j != k]
            yield rest[0] if len(rest) == 1 else ast.BoolOp(copy.deepcopy(c.op), rest)
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.Not, ast.USub)):
        yield copy.deepcopy(c.operand)
    if isinstance(c, (ast.If, ast.IfExp, ast.While)):
        for t in (ast.Constant(True), ast.Constant(False)):
            if isinstance(c, ast.While) and t.value:
                continue
            n = copy.deepcopy(c)
            n.test = t
            yield n
    if isinstance(c, (ast.Assign, ast.AugAssign, ast.Delete, ast.Assert, ast.Raise)) or (isinstance(c, ast.Expr) and isinstance(c.value, ast.Call)) or isinstance(c, (ast.For,)):
        yield ast.Pass()
    if isinstance(c, ast.AugAssign):
        yield ast.Assign([copy.deepcopy(c.target)], copy.deepcopy(c.value), lineno=0)
    if isinstance(c, ast.Call):
        f = c.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        if name in ("list", "set", "tuple", "copy", "deepcopy", "reversed", "sorted", "int", "float", "abs", "dict") and len(c.args) == 1:
            yield copy.deepcopy(c.args[0])
        if len(c.args) >= 2:
            n = copy.deepcopy(c)
            n.args[0], n.args[1] = n.args[1], n.args[0]
            yield n
        for k in range(len(c.keywords)):
            n = copy.deepcopy(c)
            del n.keywords[k]
            yield n
        if name in ("min", "max", "any", "all", "floor", "ceil", "insert", "add", "discard", "append") and True:
            other = {"min": "max", "max": "min", "any": "all", "all": "any", "floor": "ceil", "ceil": "floor"}.get(name)
            if other:
                n = copy.deepcopy(c)
                if isinstance(n.func, ast.Name):
                    n.func.id = other
                else:
                    n.func.attr = other
                yield n
    if isinstance(c, ast.Break):
        yield ast.Pass()
    if isinstance(c, ast.Continue):
        yield ast.Pass()
    if isinstance(c, ast.Return) and c.value is not None and not (isinstance(c.value, ast.Constant) and c.value.value is None):
        yield ast.Return(ast.Constant(None))
    if isinstance(c, ast.Slice):
        for part in ("lower", "upper"):
            if getattr(c, part) is not None:
                n = copy.deepcopy(c)
                setattr(n, part, None)
                yield n


def mutants():
    tree = ast.parse(src)
    base = ast.unparse(tree)
    seen = {base}
    for q, parent, field, idx, child in list(sites(tree)):
        if not re.search(only, q) or re.search(r"__(repr|str)__$", q):
            continue
        if isinstance(child, ast.Expr) and isinstance(child.value, ast.Constant):
            continue
        if field in ("annotation", "returns", "decorator_list", "bases"):
            continue
        for new in variants(child, field):
            ast.fix_missing_locations(new)
            if idx is None:
                setattr(parent, field, new)
            else:
                getattr(parent, field)[idx] = new
            try:
                text = ast.unparse(ast.fix_missing_locations(tree))
                compile(text, fn, "exec")
                ok = text not in seen
            except Exception:
                ok = False
            if idx is None:
                setattr(parent, field, child)
            else:
                getattr(parent, field)[idx] = child
            if ok:
                seen.add(text)
                yield q, getattr(child, "lineno", 0), ast.unparse(child).splitlines()[0][:90], ast.unparse(new).splitlines()[0][:90] if not isinstance(new, ast.Pass) else "pass", text


def one(m):
    q, line, old, new, text = m
    ps = given or sorted(PROPS(q))
    d = tempfile.mkdtemp(prefix="am")
    try:
        shutil.copytree("/repo/nion", d + "/r/nion")
        open(d + "/r/nion/utils/" + fn, "w").write(text)
        env = dict(os.environ, TZ="UTC", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONPATH=d + "/r")
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "pytest_timeout", "--timeout=5", "nion"], cwd=d + "/r", env=env, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return None
        if t.returncode:
            return None
        what = f"{q}:{line} {old!r} -> {new!r}"
        if not ps:
            return "UNCOVERED " + what
        env = dict(os.environ, VERIF_REPO=d + "/r", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="1")
        for p in ps:
            try:
                r = subprocess.run(["/opt/venv/bin/python", "rt/run.py", p, "--seed", "1", "--budget", "5"], cwd=HERE, env=env, capture_output=True, text=True, timeout=90)
                if '"failures": []' not in r.stdout:
                    return ""
            except subprocess.TimeoutExpired:
                return ""
        for p in ps:
            if p in RTONLY or os.environ.get("RT"):
                continue
            r = subprocess.run(["python3-vt", "check.py", p], cwd=HERE, env=dict(env, VERIF_NORT="1"), capture_output=True, text=True)
            if r.returncode == 1:
                return ""
            if r.returncode != 0:
                return f"ERROR {p} " + what + " " + r.stderr[-200:]
        return f"SURVIVES {','.join(ps)} " + what
    finally:
        shutil.rmtree(d)


TS = targets()


def PROPS(q):
    out = set()
    parts = q.split(".")
    for n in range(len(parts), 1, -1):
        t = ".".join(parts[:n])
        out |= TS.get(t, set())
        if out:
            return out
    # the properties of the class (a helper)
    for t, p in TS.items():
        if t.startswith(".".join(parts[:2]) + "."):
            out |= p
    if not out:
        for t, p in TS.items():
            if t.startswith(parts[0] + "."):
                out |= p
    return out


if __name__ == "__main__":
    ms = list(mutants())
    print(fn, len(ms), "mutants", flush=True)
    tested = killed = 0
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for r in ex.map(one, ms):
            if r is None:
                tested += 1
            elif r == "":
                killed += 1
            else:
                print(r, flush=True)
    print(fn, f"{len(ms)} mutants, {tested} noticed by the tests, {killed} by the checks")
