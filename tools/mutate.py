"""Mutation experiment (not one of the checks): every small AST change of the library, which of the checks report it?

usage: mutate.py OUT.jsonl [module.py ...]     env: P (parallel mutants), M (only every M-th), SCALE, FULL
Works on copies below /tmp/mut; results are appended, mutants already in OUT are skipped.  Survivors are for reading by hand."""
import ast, copy, json, os, shutil, subprocess, sys, time, concurrent.futures as cf, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
SCALE = float(os.environ.get("SCALE", "0.15"))
MAP = {
 "tdev": "C01 C08", "mdev": "C01 C05", "adev": "C01 C08", "calc_adev_phase": "C01 C09", "pdev": "C01 C06", "calc_pdev_phase": "C01",
 "calc_gcodev_phase": "C12", "gcodev": "C12", "oadev": "C01", "ohdev": "C02", "hdev": "C02", "calc_hdev_phase": "C02", "totdev": "C03",
 "ttotdev": "C03", "mtotdev": "C03", "calc_mtotdev_phase": "C03", "htotdev": "C03", "calc_htotdev_freq": "C03", "theo1": "C03",
 "tierms": "C04", "mtie_rolling_window": "C04", "mtie": "C04", "mtie_phase_fast": "C04", "gradev": "C11", "calc_gradev_phase": "C11",
 "psd2allan": "C19", "_transfer_integral": "C20", "adev2psd_piecewise_approx": "C20", "numerator": "C20", "psd_piecewise_to_adev": "C20",
 "input_to_phase": "C07 C24", "to_float_array": "C09 C07", "tau_generator": "C08 C24", "tau_reduction": "C08", "remove_small_ns": "C08 C24",
 "trim_data": "C07", "three_cornered_hat_phase": "C12", "frequency2phase": "C07", "phase2radians": "C07", "phase2frequency": "C07",
 "frequency2fractional": "C07", "direct": "C20", "oscillating": "C20"}
MOD = {"ci.py": "C14 C13 C15", "dataset.py": "C22", "mask.py": "C23", "noise.py": "C16 C21", "noise_kasdin.py": "C17 C18", "plot.py": "C22",
       "realtime.py": "C10"}
ALL = ["C%02d" % i for i in range(1, 25)]


def order(mod, fn):
    first = (MAP.get(fn, "C01") if mod == "allantools.py" else MOD.get(mod, "")).split()
    second = {"allantools.py": "C24 C05 C08 C09 C07", "ci.py": "C24 C11", "dataset.py": "C24 C09", "mask.py": "", "noise.py": "C09 C24",
              "noise_kasdin.py": "C09 C24", "plot.py": "", "realtime.py": "C24 C09"}[mod].split()
    rest = ALL if os.environ.get("ALLCHECKS") else second
    return first + [c for c in rest if c not in first]


SWAP = {"floor": "ceil", "ceil": "floor", "round": "floor", "min": "max", "max": "min", "nanmin": "nanmax", "nanmax": "nanmin",
        "cumsum": "array", "abs": "array", "zeros": "ones", "ones": "zeros", "sum": "mean", "mean": "sum", "nansum": "sum", "sqrt": "array",
        "argmin": "argmax", "nanmean": "mean", "append": "insert", "int": "float", "minimum": "maximum", "maximum": "minimum"}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Pow: [ast.Mult],
       ast.Mod: [ast.Mult]}


def variants(node):
    """replacements for one expression/statement node"""
    out = []
    def c(**k):
        n = copy.deepcopy(node)
        for a, b in k.items():
            setattr(n, a, b)
        return n
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            out.append(("bool", ast.Constant(not v)))
        elif isinstance(v, int):
            out += [("+1", ast.Constant(v + 1)), ("-1", ast.Constant(v - 1))]
        elif isinstance(v, float):
            out += [("*1.01", ast.Constant(v * 1.01)), ("*2", ast.Constant(v * 2)), ("neg", ast.Constant(-v))]
        elif isinstance(v, str) and len(v) < 25:
            out.append(("str", ast.Constant(v + "x")))
    elif isinstance(node, ast.Compare) and len(node.ops) == 1:
        for o in CMP.get(type(node.ops[0]), []):
            out.append((o.__name__, c(ops=[o()])))
    elif isinstance(node, ast.BinOp):
        for o in BIN.get(type(node.op), []):
            out.append((o.__name__, c(op=o())))
        out += [("left", node.left), ("right", node.right)]
    elif isinstance(node, ast.BoolOp):
        out.append(("boolop", c(op=ast.And() if isinstance(node.op, ast.Or) else ast.Or())))
        for i in range(len(node.values)):
            out.append(("only%d" % i, node.values[i]))
    elif isinstance(node, ast.UnaryOp):
        out.append(("nounary", node.operand))
    elif isinstance(node, ast.Slice):
        for a in ("lower", "upper", "step"):
            if getattr(node, a) is not None:
                out.append(("no" + a, c(**{a: None})))
    elif isinstance(node, ast.Call):
        f = node.func
        nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if nm in SWAP:
            n = copy.deepcopy(node)
            if isinstance(f, ast.Attribute):
                n.func.attr = SWAP[nm]
            else:
                n.func.id = SWAP[nm]
            out.append((SWAP[nm], n))
        if len(node.args) == 1 and not isinstance(node.args[0], ast.Starred):
            out.append(("arg", node.args[0]))
        for i in range(len(node.keywords)):
            n = copy.deepcopy(node)
            del n.keywords[i]
            out.append(("nokw", n))
        if len(node.args) >= 2:
            n = copy.deepcopy(node)
            n.args[0], n.args[1] = n.args[1], n.args[0]
            out.append(("swapargs", n))
    elif isinstance(node, ast.IfExp):
        out += [("body", node.body), ("orelse", node.orelse)]
    return out


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    res = []
    def emit(fn, node, what, new=None):
        s = ast.unparse(tree)
        res.append((fn, node.lineno if hasattr(node, "lineno") else 0, what, s))
    def printing(st):
        return isinstance(st, ast.Expr) and (isinstance(st.value, ast.Constant) or (isinstance(st.value, ast.Call) and ast.unparse(st.value.func) in
               ("print", "warnings.warn")))
    def walk(node, fn, line):
        for field, val in ast.iter_fields(node):
            if isinstance(val, list):
                for i, x in enumerate(val):
                    if not isinstance(x, ast.AST):
                        continue
                    ln = getattr(x, "lineno", line)
                    if isinstance(x, ast.stmt):
                        if printing(x) or isinstance(x, (ast.Import, ast.ImportFrom)):
                            continue
                        if isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Return, ast.Break, ast.Continue, ast.If, ast.Delete)) and fn:
                            val[i] = ast.Pass()
                            res.append((fn, ln, "del: " + ast.unparse(x)[:60], ast.unparse(tree)))
                            val[i] = x
                        if isinstance(x, ast.If):
                            for t in (True, False):
                                old, x.test = x.test, ast.Constant(t)
                                res.append((fn, ln, "if %s: %s" % (t, ast.unparse(old)[:50]), ast.unparse(tree)))
                                x.test = old
                    if isinstance(x, ast.expr):
                        for what, n in variants(x):
                            val[i] = n
                            res.append((fn, ln, "%s -> %s [%s]" % (ast.unparse(x)[:50], ast.unparse(n)[:50], what), ast.unparse(tree)))
                            val[i] = x
                    walk(x, x.name if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else fn, ln)
            elif isinstance(val, ast.AST):
                ln = getattr(val, "lineno", line)
                if isinstance(val, ast.expr) or isinstance(val, ast.Slice):
                    for what, n in variants(val):
                        setattr(node, field, n)
                        try:
                            res.append((fn, ln, "%s -> %s [%s]" % (ast.unparse(val)[:50], ast.unparse(n)[:50], what), ast.unparse(tree)))
                        except Exception:
                            pass
                        setattr(node, field, val)
                walk(val, fn, ln)
    walk(tree, "", 0)
    uniq, seen = [], {ast.unparse(tree)}
    for r in res:
        if r[3] not in seen:
            seen.add(r[3])
            try:
                compile(r[3], "x", "exec")
            except Exception:
                continue
            uniq.append(r)
    return uniq


def run(mod, m, verif):
    fn, line, what, src = m
    h = hashlib.md5((mod + src).encode()).hexdigest()[:10]
    d = os.path.join(W, "r_" + h)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/allantools", d + "/allantools", ignore=shutil.ignore_patterns("__pycache__"))
    open(d + "/allantools/" + mod, "w").write(src)
    os.makedirs(d + "/verif")
    for x in ("mon", "props", "KNOWN_FINDINGS.txt"):
        os.symlink(os.path.join(verif, x), d + "/verif/" + x)
    shutil.copy(verif + "/run.py", d + "/verif/run.py")
    verif = d + "/verif"
    t0 = time.time()
    got, runs = None, []
    for rnd in range(2 if os.environ.get("FULL") else 1):
        for c in order(mod, fn):
            own = c in order(mod, fn)[:1] or mod == "ci.py" and c in ("C13", "C15")
            e = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", VERIF_JOBS="1", VERIF_VIOLATIONS="1", VERIF_BUDGET="240",
                     VERIF_SCALE=str(1 if rnd else (SCALE if own else SCALE / 4)))
            try:
                r = subprocess.run(["/opt/venv/bin/python", verif + "/run.py", c], cwd=verif, env=e, capture_output=True, text=True, timeout=500)
                v = [l for l in r.stdout.split("\n") if l.startswith("  ") or l.startswith("ERROR")]
                if r.returncode and not v:
                    v = ["STRANGE " + r.stderr[-150:]]
                if r.returncode:
                    got = (c, r.returncode, (v[0] if v else r.stderr[-100:])[:120])
            except subprocess.TimeoutExpired:
                got = (c, 99, "timeout")
            if got:
                break
        if got:
            break
    shutil.rmtree(d, ignore_errors=True)
    return dict(h=h, mod=mod, fn=fn, line=line, what=what, got=got, t=round(time.time() - t0, 1), src=None if got else src)


def main():
    out = sys.argv[1]
    mods = sys.argv[2:] or ["allantools.py", "ci.py", "dataset.py", "mask.py", "noise.py", "noise_kasdin.py", "realtime.py", "plot.py"]
    done = {json.loads(l)["h"] for l in open(out)} if os.path.exists(out) else set()
    os.makedirs(W, exist_ok=True)
    verif = os.path.join(W, "verif")
    shutil.rmtree(verif, ignore_errors=True)
    shutil.copytree(V, verif, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence", "__pycache__"))
    todo = []
    for mod in mods:
        for i, m in enumerate(mutants("/repo/allantools/" + mod)):
            if not m[0] or "print(" in m[2] or "%i" in m[2] or "Warning" in m[2]:
                continue
            if i % int(os.environ.get("M", "1")):
                continue
            if hashlib.md5((mod + m[3]).encode()).hexdigest()[:10] not in done:
                todo.append((mod, m))
    print(len(todo), "mutants", flush=True)
    if os.environ.get("DRY"):
        return
    n = k = 0
    with cf.ThreadPoolExecutor(int(os.environ.get("P", "6"))) as ex, open(out, "a") as fp:
        for f in cf.as_completed([ex.submit(run, mod, m, verif) for mod, m in todo]):
            r = f.result()
            fp.write(json.dumps(r) + "\n")
            fp.flush()
            n += 1
            k += not r["got"]
            if n % 50 == 0 or not r["got"]:
                print(n, "run", k, "survive;", "" if r["got"] else "%s:%s %s: %s" % (r["mod"], r["line"], r["fn"], r["what"]), flush=True)


main()
