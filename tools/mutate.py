"""Mutation campaign (development aid):  mutate.py list | tests OUT.json [shard/shards]

Generates single-point mutants of eth_abi, and records which pass the repository's tests."""
import ast, copy, json, os, shutil, subprocess, sys, tempfile

FILES = ["decoding.py", "encoding.py", "registry.py", "grammar.py", "codec.py", "base.py", "utils/numeric.py", "utils/padding.py", "utils/string.py", "utils/validation.py", "tools/_strategies.py"]
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq, ast.GtE], ast.NotEq: [ast.Eq, ast.Lt, ast.Gt], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult], ast.Div: [ast.FloorDiv]}


# quick tests first: most mutants end there
ORDER = ["tests/core/" + t for t in ("abi_tests/test_encode.py", "abi_tests/test_decode.py", "abi_tests/test_is_encodable.py", "abi_tests/test_is_encodable_type.py", "registry", "end_to_end", "packed",
                                     "utils", "test_tools.py", "abi_tests", "encoding", "decoding", "test_import_and_version.py")] + ["tests"]


def mutants(src):
    """(description, mutated source)"""
    tree = ast.parse(src)
    nodes = [n for n in ast.walk(tree)]

    def emit(k, what, f):
        t = copy.deepcopy(tree)
        n = [m for m in ast.walk(t)][k]
        if f(n, t) is False:
            return None
        try:
            return f"line {getattr(n, 'lineno', '?')}: {what}", ast.unparse(ast.fix_missing_locations(t))
        except Exception:
            return None

    for k, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for op in CMP.get(type(n.ops[0]), []):
                yield emit(k, f"{ast.unparse(n)} -> {op.__name__}", lambda m, t, op=op: m.ops.__setitem__(0, op()))
        elif isinstance(n, ast.BinOp):
            for op in BIN.get(type(n.op), []):
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                yield emit(k, f"{ast.unparse(n)} -> {op.__name__}", lambda m, t, op=op: setattr(m, "op", op()))
        elif isinstance(n, ast.BoolOp):
            yield emit(k, f"{ast.unparse(n)} and/or", lambda m, t: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for i in range(len(n.values)):
                yield emit(k, f"{ast.unparse(n)} drop operand {i}", lambda m, t, i=i: m.values.pop(i))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield emit(k, f"{n.value} flipped", lambda m, t: setattr(m, "value", not m.value))
            elif isinstance(n.value, int):
                yield emit(k, f"{n.value} + 1", lambda m, t: setattr(m, "value", m.value + 1))
                yield emit(k, f"{n.value} - 1", lambda m, t: setattr(m, "value", m.value - 1))
            elif isinstance(n.value, bytes):
                yield emit(k, f"{n.value!r} changed", lambda m, t: setattr(m, "value", b"\x01" + m.value[1:] if m.value[:1] != b"\x01" else b"\x02"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield emit(k, f"{ast.unparse(n)} drop operator", lambda m, t: setattr(m, "op", ast.UAdd()) if isinstance(m.op, ast.USub) else setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand)))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield emit(k, f"if {ast.unparse(n.test)[:60]} -> True", lambda m, t: setattr(m, "test", ast.Constant(True)))
            yield emit(k, f"if {ast.unparse(n.test)[:60]} -> False", lambda m, t: setattr(m, "test", ast.Constant(False)))
        elif isinstance(n, ast.Slice):
            if n.upper is not None:
                yield emit(k, f"slice {ast.unparse(n)} upper dropped", lambda m, t: setattr(m, "upper", None))
            if n.lower is not None:
                yield emit(k, f"slice {ast.unparse(n)} lower dropped", lambda m, t: setattr(m, "lower", None))
        if isinstance(n, ast.FunctionDef) and n.name == "validate":
            continue
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.For, ast.If, ast.With, ast.Try)):
            for i, s in enumerate(n.body):
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.FunctionDef)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    yield emit(k, f"{type(n).__name__} {getattr(n, 'name', '')}: drop `{ast.unparse(s)[:70]}`", lambda m, t, i=i: m.body.__setitem__(i, ast.Pass()))
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            for i, d in enumerate(n.decorator_list):
                yield emit(k, f"{n.name}: drop @{ast.unparse(d)}", lambda m, t, i=i: m.decorator_list.pop(i))
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            yield emit(k, f"except {ast.unparse(n.type)} -> broad", lambda m, t: setattr(m, "type", ast.Name("Exception")))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            yield emit(k, f"{ast.unparse(n)[:60]} swap arguments", lambda m, t: m.args.__setitem__(slice(0, 2), m.args[1::-1]))
        if isinstance(n, ast.Call) and n.keywords:
            for i, kw in enumerate(n.keywords):
                yield emit(k, f"{ast.unparse(n)[:60]} drop keyword {kw.arg}", lambda m, t, i=i: m.keywords.pop(i))
        if isinstance(n, ast.Attribute) and n.attr == "is_dynamic" and isinstance(n.ctx, ast.Load):
            yield emit(k, f"{ast.unparse(n)} negated name", lambda m, t: setattr(m, "attr", "is_dynamic_"))


def all_mutants():
    out = []
    for f in FILES:
        p = os.path.join("/repo/eth_abi", f)
        if not os.path.exists(p):
            continue
        src = open(p).read()
        base = ast.unparse(ast.parse(src))
        seen = set()
        for m in mutants(src):
            if m and m[1] != base and m[1] not in seen:
                seen.add(m[1])
                out.append((f, m[0], m[1]))
    return out


def main():
    ms = all_mutants()
    if sys.argv[1] == "list":
        for i, m in enumerate(ms):
            print(i, m[0], m[1])
        return
    out = sys.argv[2]
    a, b = map(int, sys.argv[3].split("/")) if len(sys.argv) > 3 else (0, 1)
    work = tempfile.mkdtemp(prefix="mut_")
    copydir = work + "/repo"
    subprocess.run(["cp", "-a", "/repo", copydir], check=True)
    subprocess.run(["git", "-C", copydir, "checkout", "-q", "--", "."], check=True)
    env = dict(os.environ, PYTHONPATH=copydir, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HYPOTHESIS_STORAGE_DIRECTORY=work + "/hyp", LANG="C.UTF-8")
    res = {}
    done = json.load(open(sys.argv[4])) if len(sys.argv) > 4 else {}
    for i, (f, d, s) in enumerate(ms):
        if i % b != a or str(i) in done:
            continue
        p = os.path.join(copydir, "eth_abi", f)
        orig = open(p).read()
        open(p, "w").write(s)
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "vp_hypothesis_profile", "--timeout=60",
                                *ORDER], cwd=copydir, env=env, capture_output=True, timeout=240, text=True)
            res[i] = r.returncode
        except subprocess.TimeoutExpired:
            res[i] = "timeout"
        finally:
            open(p, "w").write(orig)
        if res[i] == 0:
            print(i, f, d, flush=True)
        json.dump(res, open(out, "w"))
    shutil.rmtree(work, ignore_errors=True)


main()
