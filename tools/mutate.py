#!/usr/bin/env python3
"""mutate.py [--list] [--only FUNC] [--out FILE]: mutation testing of the checks.

Makes small syntactic changes to /repo's modules (operators, comparisons, constants,
dropped arguments, calls and statements, branches), keeps those that pass the
repository's tests and runs the checks of the properties anchored in the changed
function against them.  A tool for finding gaps, not a check: survivors are examined
by hand (many are equivalent or change nothing that is claimed).  Works on copies
mounted over /repo in a private namespace."""
import ast, copy, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import ns, W

SRC = "/repo/src/momlevel"
PROPS = {
    "derived.py": {
        "adjust_negative_n2": "C11 C12", "calc_alpha": "C02", "calc_beta": "C02", "calc_coriolis": "C12",
        "calc_rel_vort": "C13", "calc_dz": "C04 C05", "calc_n2": "C11", "calc_masso": "C08 C06", "calc_pdens": "C01",
        "calc_pv": "C13", "calc_rossby_rd": "C12", "calc_rho": "C01", "calc_rhoga": "C08", "calc_spice": "C03",
        "calc_stability_angle": "C14", "calc_volo": "C08", "calc_wave_speed": "C12",
    },
    "dynamic.py": {"": "C15"},
    "reference.py": {"": "C08 C05"},
    "steric.py": {"": "C05 C06 C07 C09 C08"},
    "tidegauge.py": {"": "C24"},
    "trend.py": {
        "broadcast_trend": "C19", "time_conversion_factor": "C19", "_detrend_array": "C20", "calc_linear_trend": "C19",
        "linear_detrend": "C20", "seasonal_model": "C21", "": "C22",
    },
    "util.py": {
        "alphabetize_dataset": "C29", "annual_average": "C16", "annual_cycle": "C18", "default_coords": "C29",
        "eos_func_from_str": "C29 C01", "geolocate_points": "C23", "get_pv_colormap": "C26", "get_xgcm_grid": "C29 C13",
        "monthly_average": "C17", "reset_encoding": "C29", "standard_grid_cell_area": "C25", "tile_nominal_coords": "C25 C24",
        "validate_areacello": "C10", "validate_dataset": "C10", "validate_tidegauge_data": "C24", "linear_detrend": "C20",
    },
    "eos/linear.py": {"": "C01 C02"},
    "eos/wright.py": {"": "C01 C02"},
    "spice/flament.py": {"": "C03"},
}


def swaps(n):
    """alternative source texts of an expression node"""
    u = ast.unparse
    if isinstance(n, ast.BinOp):
        alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}.get(type(n.op))
        if alt:
            m = copy.deepcopy(n)
            m.op = alt()
            yield "op", u(m)
    elif isinstance(n, ast.Compare) and len(n.ops) == 1:
        for a in {
            ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq, ast.LtE, ast.GtE],
            ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
        }.get(type(n.ops[0]), []):
            m = copy.deepcopy(n)
            m.ops = [a()]
            yield "cmp", u(m)
    elif isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n)
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        yield "bool", u(m)
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
        yield "unary", u(n.operand)
    elif isinstance(n, ast.Constant):
        v = n.value
        if v is True or v is False:
            yield "const", repr(not v)
        elif isinstance(v, int):
            yield "const", repr(v + 1)
            if v > 0:
                yield "const", repr(v - 1)
        elif isinstance(v, float):
            yield "const", repr(v * 1.001 if v else 0.001)
        elif isinstance(v, str) and v:
            yield "const", repr("XX" + v)
    elif isinstance(n, ast.IfExp):
        yield "ifexp", u(n.body)
        yield "ifexp", u(n.orelse)
    elif isinstance(n, ast.Call):
        if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "xr", "pd", "os", "xgcm", "warnings", "util", "trend", "cftime")):
            yield "uncall", u(n.func.value)
        elif n.args:
            yield "uncall", u(n.args[0])
        for k in range(len(n.keywords)):
            m = copy.deepcopy(n)
            del m.keywords[k]
            yield "kwarg", u(m)
    elif isinstance(n, ast.Dict):
        for k in range(len(n.keys)):
            m = copy.deepcopy(n)
            del m.keys[k], m.values[k]
            yield "dictkey", u(m)
    elif isinstance(n, (ast.List, ast.Tuple, ast.Set)) and len(n.elts) > 1 and isinstance(n.ctx if hasattr(n, "ctx") else ast.Load(), ast.Load):
        for k in range(len(n.elts)):
            m = copy.deepcopy(n)
            del m.elts[k]
            yield "elt", u(m)


def stmts(n):
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Assert, ast.For, ast.Raise)):
        yield "delete", "pass"
    if isinstance(n, ast.If):
        yield "never", None
        yield "always", None


def mutants():
    for f, funcs in PROPS.items():
        src = open(f"{SRC}/{f}").read()
        lines = src.encode().split(b"\n")
        start = [0]
        for x in lines:
            start.append(start[-1] + len(x) + 1)
        b = src.encode()
        tree = ast.parse(src)
        for fn in tree.body:
            if isinstance(fn, (ast.FunctionDef,)):
                body = list(fn.body)
                if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                    body = body[1:]
                name = fn.name
                roots = body + list(fn.args.defaults)
            elif isinstance(fn, ast.Assign) and fn.targets[0].id != "__all__":
                name, roots = "<module>", [fn.value]
            else:
                continue
            if name not in funcs and "" not in funcs:
                props = "C26"
            else:
                props = funcs.get(name, funcs.get(""))
            for r in roots:
                skip = set()
                for n in ast.walk(r):
                    if isinstance(n, ast.FunctionDef) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                        skip.add(n.body[0])
                        skip.add(n.body[0].value)
                    if isinstance(n, ast.JoinedStr):
                        skip.update(ast.walk(n))
                    # descriptions and the texts of messages are not claimed
                    if isinstance(n, ast.Dict) and any(isinstance(k, ast.Constant) and k.value in ("long_name", "long name") for k in n.keys):
                        skip.update(ast.walk(n))
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and (" " in n.value or n.value.startswith("#")):
                        skip.add(n)
                    if isinstance(n, ast.Assert) and n.msg:
                        skip.update(ast.walk(n.msg))
                    if isinstance(n, ast.Raise):
                        skip.update(x for x in ast.walk(n) if x is not n)
                    if isinstance(n, ast.Call) and ast.unparse(n.func) in ("warnings.warn", "print"):
                        skip.update(x for a in n.args for x in ast.walk(a))
                for n in ast.walk(r):
                    if n in skip or not hasattr(n, "lineno"):
                        continue
                    s = start[n.lineno - 1] + n.col_offset
                    e = start[n.end_lineno - 1] + n.end_col_offset
                    if isinstance(n, ast.stmt):
                        for kind, new in stmts(n):
                            if new is None:
                                t = n.test
                                s1 = start[t.lineno - 1] + t.col_offset
                                e1 = start[t.end_lineno - 1] + t.end_col_offset
                                yield f, name, props, n.lineno, kind, (s1, e1, "False" if kind == "never" else "True"), b
                            else:
                                yield f, name, props, n.lineno, kind, (s, e, new), b
                    elif isinstance(n, ast.expr):
                        for kind, new in swaps(n):
                            yield f, name, props, n.lineno, kind, (s, e, f"({new})" if kind not in ("const",) else new), b


def one(job):
    i, (f, name, props, line, kind, (s, e, new), b) = job
    work = f"{W}/mu-{i}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        txt = (b[:s] + new.encode() + b[e:]).decode()
        compile(txt, f, "exec")
        subprocess.run(["cp", "-a", "/repo", work + "/repo"], check=True)
        open(f"{work}/repo/src/momlevel/{f}", "w").write(txt)
        env = "export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1\n"
        try:
            rc, out = ns(work, env + "/opt/venv/bin/python -m pytest tests -x -q -p no:cacheprovider --timeout=60 >/dev/null 2>&1", 200)
        except subprocess.TimeoutExpired:
            return "test"
        if rc:
            return "test"
        for p in props.split():
            try:
                rc, out = ns(work, f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 run.py {p} --tier quick --jobs 1 --scale {os.environ.get("MUT_SCALE", "0.15")}", 900)
            except subprocess.TimeoutExpired:
                return f"timeout {p}"
            if rc == 1:
                return f"caught {p}"
            if rc:
                return f"rc{rc} {p} {out[-200:]}"
        return "SURVIVED"
    except SyntaxError:
        return "syntax"
    except Exception as x:  # noqa
        return f"error {type(x).__name__} {x}"
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    ms = list(mutants())
    if "--only" in a:
        keep = a[a.index("--only") + 1].split(",")
        ms = [m for m in ms if m[1] in keep or m[0] in keep]
    if "--list" in a:
        for m in ms:
            print(m[0], m[1], m[3], m[4], m[6][m[5][0] : m[5][1]].decode()[:60].replace("\n", " "), "->", m[5][2][:60])
        print(len(ms))
        return
    out = a[a.index("--out") + 1] if "--out" in a else "/tmp/mutants.jsonl"
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)["i"] for x in open(out)}
    jobs = [(i, m) for i, m in enumerate(ms) if i not in done]
    with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "7"))) as ex, open(out, "a") as fo:
        def run(j):
            return j, one(j)
        for (i, m), r in ex.map(run, jobs):
            old = m[6][m[5][0] : m[5][1]].decode()
            json.dump({"i": i, "file": m[0], "func": m[1], "line": m[3], "kind": m[4], "old": old, "new": m[5][2], "result": r}, fo)
            fo.write("\n")
            fo.flush()


if __name__ == "__main__":
    main()
