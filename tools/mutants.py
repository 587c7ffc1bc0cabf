"""Mutation campaign: mutants.py OUT.jsonl [--seed N] [--only FUNC,...] [--limit N]

Every function of /repo is changed in one place at a time, in a scratch copy; the checks responsible for the
function are run until one reports a violation.  OUT gets one line per mutant.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

CHECKS = {
    "single_image.py": {
        "__init__": "C01 C02 C03", "__exit__": "C07", "__enter__": "C07", "_clean": "C07", "attached_to": "C02", "data": "C02 C01", "gain": "C02", "header": "C02", "_window_mask": "C01",
        "mask": "C01", "background": "C15", "_bkg": "C15 C05", "bkg_sub_img": "C15", "stamp_shape": "C05 C03", "best_sources": "C06", "update_sources": "C03", "stamps_pos": "C05 C03", "check_margin": "C05",
        "n_sources": "C05 C03", "cov_matrix": "C04", "eigenv": "C04", "kl_basis": "C04 C03", "_setup_kl_basis": "C04 C03", "kl_afields": "C04 C03", "get_afield_domain": "C09",
        "_setup_kl_a_fields": "C04 C03", "get_variable_psf": "C04 C12 C03", "normal_image": "C09 C03", "min_sources": "C06", "maskthresh": "C01", "zp": "C03", "var": "C09 C12", "s_hat_comp": "C09 C03",
        "s_component": "C03", "interped": "C15", "interped_hat": "C15 C12", "psf_hat_sqnorm": "C09", "p_sqnorm": "C03 C09", "get_psf_xy": "C04", "__repr__": ""},
    "utils.py": {"store_img": "C18", "crossmatch": "C11", "_matching": "C11", "transparency": "C10", "_align_for_diff": "", "_register": "C19", "_align_for_coadd": "C19", "find_S_local_maxima": "C14",
                 "chunk_it": "C08", "fit_gaussian2d": "C12"},
    "operations.py": {"subtract": "C12 C13 C19", "cost": "C12", "F": "C12", "process_chunk_joblib": "C08 C09", "coadd": "C09 C08 C19", "diff": "C12", "stack_R": "C09"},
    "plot.py": {"primes": "C16", "__call__": "C16", "autopsf": "C16", "autopsf_coef": "C16", "imshow": "C16"},
    "simtools.py": {"*": "C17", "store_fits": "C18"},
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult, ast.Mod: ast.FloorDiv, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def is_log(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("logger", "warnings")


def sites(tree):
    """(function, description, mutate(tree)) — mutate finds the node again by its index in a walk"""
    out = []

    def walk(n, fn, path):
        if is_log(n) or isinstance(n, (ast.JoinedStr, ast.Raise)):
            return
        if isinstance(n, ast.FunctionDef):
            fn = n.name
        if fn:
            ln = getattr(n, "lineno", 0)
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                out.append((fn, ln, "cmp", path, lambda x: x.ops.__setitem__(0, CMP[type(x.ops[0])]())))
            if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant,)) or (isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left.value if isinstance(n.left, ast.Constant) else 0, str)):
                out.append((fn, ln, "bin", path, lambda x: setattr(x, "op", BIN[type(x.op)]())))
            if isinstance(n, ast.BoolOp):
                out.append((fn, ln, "bool", path, lambda x: setattr(x, "op", ast.Or() if isinstance(x.op, ast.And) else ast.And())))
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                out.append((fn, ln, "flip", path, lambda x: setattr(x, "value", not x.value)))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                out.append((fn, ln, "const", path, lambda x: setattr(x, "value", x.value + 1 if isinstance(x.value, int) else x.value * 1.25 + (0.1 if x.value == 0 else 0))))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                out.append((fn, ln, "unary", path, lambda x: setattr(x, "op", ast.UAdd() if isinstance(x.op, ast.USub) else ast.Not()) if isinstance(x.op, ast.USub) else setattr(x, "operand", ast.UnaryOp(ast.Not(), x.operand))))
            if isinstance(n, ast.Call):
                for k in range(len(n.keywords)):
                    out.append((fn, ln, f"kw-{n.keywords[k].arg}", path, lambda x, k=k: x.keywords.pop(k)))
                if len(n.args) == 2:
                    out.append((fn, ln, "swap", path, lambda x: x.args.reverse()))
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("conj", "copy", "real"):
                    out.append((fn, ln, "drop-" + n.func.attr, path, "drop"))
            if isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
                out.append((fn, ln, "turn", path, lambda x: x.elts.reverse()))
            for field in ("body", "orelse", "finalbody"):
                b = getattr(n, field, None)
                if isinstance(b, list):
                    for i, st in enumerate(b):
                        if isinstance(st, (ast.AugAssign, ast.Continue, ast.Break)) or (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and not is_log(st.value)) or \
                                (isinstance(st, ast.Assign) and not isinstance(st.targets[0], ast.Name)) or (isinstance(st, ast.If) and not st.orelse):
                            out.append((fn, st.lineno, "delete", path, lambda x, f=field, i=i: getattr(x, f).__setitem__(i, ast.Pass())))
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.AST):
                walk(v, fn, path + [(f, None)])
            elif isinstance(v, list):
                for i, w in enumerate(v):
                    if isinstance(w, ast.AST):
                        walk(w, fn, path + [(f, i)])

    walk(tree, None, [])
    return out


def node(tree, path):
    for f, i in path:
        tree = getattr(tree, f) if i is None else getattr(tree, f)[i]
    return tree


def main():
    a = sys.argv[1:]
    out = a[0]
    opt = dict(zip(a[1::2], a[2::2]))
    rng = random.Random(int(opt.get("--seed", 1)))
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)["key"] for x in open(out)}
    todo = []
    for f, fns in CHECKS.items():
        src = open("/repo/properimage/" + f).read()
        tree = ast.parse(src)
        for k, (fn, ln, kind, path, mut) in enumerate(sites(tree)):
            c = fns.get(fn, fns.get("*", ""))
            if not c or ("--only" in opt and fn not in opt["--only"].split(",")):
                continue
            todo.append((f"{f}:{ln}:{kind}:{k}", f, fn, ln, kind, path, mut, c.split(), src))
    rng.shuffle(todo)
    todo = todo[:int(opt.get("--limit", 10**6))]
    print(len(todo), "mutants", flush=True)
    for key, f, fn, ln, kind, path, mut, cs, src in todo:
        if key in done:
            continue
        tree = ast.parse(src)
        try:
            x = node(tree, path)
            before = ast.unparse(x) if not isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.For, ast.While, ast.If, ast.Try, ast.Module)) else src.splitlines()[ln - 1].strip()
            if mut == "drop":
                par = node(tree, path[:-1])
                fl, i = path[-1]
                if i is None:
                    setattr(par, fl, x.func.value)
                else:
                    getattr(par, fl)[i] = x.func.value
                after = ast.unparse(x.func.value)
            else:
                mut(x)
                after = ast.unparse(x) if not isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.For, ast.While, ast.If, ast.Try, ast.Module)) else "-"
            new = ast.unparse(ast.fix_missing_locations(tree))
            compile(new, f, "exec")
        except Exception:
            continue
        d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
        res = "survived"
        try:
            shutil.copytree("/repo/properimage", d + "/properimage", ignore=shutil.ignore_patterns("__pycache__"))
            open(f"{d}/properimage/{f}", "w").write(new)
            for c in cs:
                try:
                    r = subprocess.run(["nice", "-n", "19", "/verif/bin/check", c], env=dict(os.environ, PIMV_REPO=d), capture_output=True, text=True, timeout=1500)
                except subprocess.TimeoutExpired:
                    res = f"timeout {c}"
                    break
                if r.returncode == 1:
                    res = f"caught {c}"
                    break
                if r.returncode != 0:
                    res = f"rc{r.returncode} {c}"
        finally:
            shutil.rmtree(d)
        with open(out, "a") as o:
            o.write(json.dumps(dict(key=key, file=f, fn=fn, line=ln, kind=kind, before=before[:100], after=after[:100], checks=cs, res=res)) + "\n")


main()
