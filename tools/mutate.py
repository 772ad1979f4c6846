"""Run the checks against random small mutations of the code under test.

`python tools/mutate.py NUM [SEED] [--file=SUBSTRING]`: every mutant is a scratch copy of
/repo with one changed expression. Prints the mutants that no check reports.
"""

import ast
import os
import random
import shutil
import subprocess
import sys
from glob import glob

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = [2, 21, 3, 1, 23, 22, 24, 14, 28, 13, 4, 5, 6, 7, 8, 9, 12, 15, 11, 17, 25, 29, 20, 19, 16, 27, 10, 26, 18]
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
       ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Pow: "*", ast.MatMult: "+"}


def span(src, node):
    lines = src.splitlines(keepends=True)
    off = [0]
    for line in lines:
        off.append(off[-1] + len(line.encode()))
    return off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset


def mutants(path):
    src = open(path).read()
    raw = src.encode()
    out = []

    def add(node, text):
        a, b = span(src, node)
        new = raw[:a] + text.encode() + raw[b:]
        out.append((path, node.lineno, raw[a:b].decode(), text, new.decode()))

    def seg(node):
        return ast.get_source_segment(src, node)

    def walk(node):
        if isinstance(node, (ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom, ast.arg, ast.AnnAssign)):
            return
        if isinstance(node, ast.Call) and getattr(node.func, "id", "") in ("warn", "isinstance"):
            if node.func.id == "warn":
                add(node, "None")
            return
        if isinstance(node, ast.FunctionDef):
            for d in node.args.defaults + node.args.kw_defaults:
                d is not None and walk(d)
            for st in node.body:
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    continue
                if isinstance(st, (ast.Expr, ast.AugAssign)) or isinstance(st, ast.Assign) and isinstance(st.targets[0], (ast.Subscript, ast.Attribute)):
                    add(st, "pass")
                walk(st)
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op = CMP[type(node.ops[0])]
            add(node, f"({seg(node.left)} {op} {seg(node.comparators[0])})")
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            add(node, f"({seg(node.left)} {BIN[type(node.op)]} {seg(node.right)})")
            if isinstance(node.op, (ast.Add, ast.Mult)):
                add(node, seg(node.left))
        if isinstance(node, (ast.If, ast.IfExp)):
            add(node.test, "True")
            add(node.test, "False")
        if isinstance(node, ast.BoolOp):
            add(node, "(" + seg(node.values[0]) + ")")
            add(node, "(" + seg(node.values[1]) + ")")
        if isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                add(node, str(not v))
            elif isinstance(v, int):
                add(node, str(v + 1))
            elif isinstance(v, float):
                add(node, str(v + 0.5))
        if isinstance(node, ast.Attribute) and node.attr == "T":
            add(node, seg(node.value))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            add(node, seg(node.operand))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            if node.func.attr in ("clone", "to", "flip", "copy", "sqrt", "unsqueeze", "div_", "mul_"):
                add(node, seg(node.func.value))
            for old, new in (("sum", "mean"), ("mean", "sum"), ("add_", "sub_"), ("mul_", "div_")):
                if node.func.attr == old:
                    add(node, seg(node).replace(f".{old}(", f".{new}("))
        if isinstance(node, ast.Call):
            for k in node.keywords:
                if k.arg in ("dtype", "device", "alpha", "groups", "stride", "dilation"):
                    add(k, f"**{{}}")
        for child in ast.iter_child_nodes(node):
            walk(child)

    walk(ast.parse(src))
    for _, _, _, _, new in list(out):
        try:
            compile(new, path, "exec")
        except SyntaxError:
            out = [m for m in out if m[4] is not new]
    return out


def main():
    num, rng = int(sys.argv[1]), random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 0)
    sub = [a[7:] for a in sys.argv if a.startswith("--file=")]
    all_ = []
    for path in sorted(glob("/repo/singd/**/*.py", recursive=True)):
        if not sub or sub[0] in path:
            all_ += mutants(path)
    print(len(all_), "mutants", flush=True)
    copy = f"/tmp/mutant{os.getpid()}"
    for path, line, old, new, code in rng.sample(all_, min(num, len(all_))):
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        with open(path.replace("/repo", copy, 1), "w") as f:
            f.write(code)
        env = {**os.environ, "VERIF_REPO": copy, "VERIF_NO_EVIDENCE": "1"}
        killed = None
        for c in ORDER:
            try:
                r = subprocess.run(["bash", f"{V}/run.sh", f"C{c:02d}", "quick"], env=env,
                                   capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                killed = f"C{c:02d} timeout"
                break
            if r.returncode:
                killed = f"C{c:02d} ({r.returncode})"
                break
        print("killed" if killed else "SURVIVED", killed, path[12:], line, repr(old[:80]), "->",
              repr(new[:80]), flush=True)
    shutil.rmtree(copy, ignore_errors=True)


main()
