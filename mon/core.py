"""Driver of the runtime monitors: runs families of generated executions of the real library in worker
processes, collects what the monitors observed, writes evidence and reports violations."""
import ast, glob, hashlib, importlib, json, multiprocessing as mp, os, random, signal, sys, time, traceback
from mon import forms

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "allantools")


class Violation(Exception):
    def __init__(self, key, msg, detail=None):
        super().__init__(msg)
        self.key, self.msg, self.detail = key, msg, detail or {}


class Skip(Exception):
    """the generated case is outside the property's domain"""


class Timeout(Exception):
    pass


class Family:
    """fn(ctx) performs one execution under monitoring.  quick/thorough: number of executions."""
    def __init__(self, fn, quick, thorough, name=None, timeout=60):
        self.fn, self.quick, self.thorough = fn, quick, thorough
        self.name, self.timeout = name or fn.__name__, timeout

    def count(self, tier):
        return self.quick if tier == "quick" else self.thorough


def short(o, n=400):
    try:
        import numpy as np
        if isinstance(o, np.ndarray):
            s = "array%s %s %s" % (o.shape, o.dtype, np.array2string(o[:6] if o.ndim else o, precision=17))
        else:
            s = repr(o)
    except Exception as e:  # pragma: no cover
        s = "<%s>" % e
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    def __init__(self, prop, seed, tier, fam, idx, at, hot):
        import numpy as np
        self.prop, self.seed, self.tier, self.fam, self.idx = prop, seed, tier, fam, idx
        h = hashlib.sha256(("%s|%d|%s|%d" % (prop, seed, fam, idx)).encode()).digest()
        self.rng = np.random.Generator(np.random.PCG64(int.from_bytes(h[:16], "big")))
        self.r = random.Random(int.from_bytes(h[16:32], "big"))
        self.rf = random.Random(int.from_bytes(h[8:24], "big"))
        self.at = at
        self.hot = hot
        self.events = {}
        self.keys = set()
        self.desc = []
        self.max_ratio = 0.0

    @property
    def thorough(self):
        return self.tier != "quick"

    def say(self, fmt, *a):
        """describe the case (goes to samples and replays)"""
        self.desc.append((fmt % a) if a else fmt)

    def mag(self, a, b):
        """a magnitude between 10**a and 10**b, often near a number that is new in the source"""
        hot = [v * f for v in self.hot["floats"] for f in (1, .999, 1.001, .5, 2, .1, 10) if 10.0 ** a <= abs(v * f) <= 10.0 ** b]
        if hot and self.r.random() < .3:
            return abs(self.r.choice(hot))
        return 10 ** self.r.uniform(a, b)

    def val(self, a, b):
        """a value between a and b, often near a number that is new in the source"""
        hot = [g * v for v in self.hot["floats"] for g in (1, -1, .99, -.99, 1.01, -1.01) if a <= g * v <= b]
        if hot and self.r.random() < .3:
            return self.r.choice(hot)
        return self.r.uniform(a, b)

    def obs(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def note(self, *parts):
        """register a non-trivial observation; identical ones count once"""
        import numpy as np
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if isinstance(p, np.ndarray):
                h.update(np.ascontiguousarray(p).tobytes())
            else:
                h.update(repr(p).encode())
        self.keys.add(h.digest())

    def fail(self, key, msg, **detail):
        raise Violation(key, msg, {k: short(v) for k, v in detail.items()})

    def check(self, cond, key, msg, **detail):
        self.obs("assertions")
        if not cond:
            self.fail(key, msg, **detail)

    def near(self, got, ref, tol, key, what, **detail):
        """|got-ref| <= tol, both finite (or both NaN / equal infinities)"""
        import numpy as np
        self.obs("comparisons")
        g, r = np.longdouble(got), np.longdouble(ref)
        if np.isnan(r):
            if np.isnan(g):
                return
            self.fail(key, "%s: got %r, expected NaN" % (what, got), **detail)
        if g == r:
            return
        e = abs(g - r)
        if not e <= tol:
            self.fail(key, "%s: got %.17g, expected %.17g, |difference| %.3g > allowed %.3g" %
                      (what, float(g), float(r), float(e), float(tol)), **detail)
        if tol > 0:
            self.max_ratio = max(self.max_ratio, float(e / tol))

    def nears(self, got, ref, tol, key, what, **detail):
        import numpy as np
        got = np.asarray(got)
        ref = np.asarray(ref)
        self.check(got.shape == ref.shape, key, "%s: shape %s, expected %s" % (what, got.shape, ref.shape), **detail)
        self.obs("comparisons", int(got.size))
        gn, rn = np.isnan(got), np.isnan(ref)
        with np.errstate(all="ignore"):
            d = np.abs(got - ref)
            ok = (d <= tol) | (gn & rn) | (got == ref)
        if not np.all(ok):
            i = tuple(int(v) for v in np.argwhere(~ok)[0])
            t = np.broadcast_to(tol, ref.shape)[i]
            self.fail(key, "%s: element %s is %.17g, expected %.17g, allowed difference %.3g" %
                      (what, i, float(got[i]), float(ref[i]), float(t)), got=got, ref=ref, **detail)

    def call(self, fn, *a, **k):
        """the monitored library call on valid input: any exception is a violation"""
        self.obs("calls")
        a, k = forms.form(self.rf, fn, a, k)
        try:
            return fn(*a, **k)
        except (Violation, Skip, Timeout, MemoryError):
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            self.fail("raised", "%s raised %s(%s) on valid input, at %s" % (
                getattr(fn, "__name__", fn), type(e).__name__, e,
                "; ".join("%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-3:])),
                args=a[1:] if a else (), kwargs=k, data=a[0] if a else None)

    def refuses(self, key, what, fn, *a, **k):
        """the monitored call must raise"""
        self.obs("refusals expected")
        a, k = forms.form(self.rf, fn, a, k)
        try:
            out = fn(*a, **k)
        except (Violation, Skip, Timeout, MemoryError, KeyboardInterrupt):
            raise
        except BaseException as e:
            if isinstance(e, SystemExit):
                raise
            self.obs("refusals seen")
            return e
        self.fail(key, "%s: accepted, returned %s" % (what, short(out)), args=a, kwargs=k)


# ---------------------------------------------------------------- literals of the current source (inputs only)
def _value(n):
    """value of a constant expression such as 2**16, 1 << 20, 64*1024, -5, 1/3. or np.int16 (its largest value)"""
    if isinstance(n, ast.Constant) and type(n.value) in (int, float):
        return n.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = _value(n.operand)
        return None if v is None else -v
    if isinstance(n, ast.BinOp):
        l, r = _value(n.left), _value(n.right)
        if l is None or r is None:
            return None
        try:
            if isinstance(n.op, ast.Pow) and abs(r) < 64 and abs(l) < 1e6:
                return l ** r
            if isinstance(n.op, ast.LShift) and r < 40:
                return l << r
            if isinstance(n.op, ast.Mult):
                return l * r
            if isinstance(n.op, ast.Add):
                return l + r
            if isinstance(n.op, ast.Sub):
                return l - r
            if isinstance(n.op, ast.Div):
                return l / r
            if isinstance(n.op, ast.FloorDiv):
                return l // r
        except Exception:
            return None
    w = n.attr if isinstance(n, ast.Attribute) else n.value if isinstance(n, ast.Constant) and type(n.value) is str else None
    if w in TYPE_LIMITS:
        return TYPE_LIMITS[w]
    return None


TYPE_LIMITS = {"int8": 127, "uint8": 255, "int16": 32767, "uint16": 65535, "int32": 46340, "uint32": 65535, "float16": 2048,
               "float32": 16777216.0, "single": 16777216.0, "half": 2048}


def mine_literals():
    """how often each number is written in the source"""
    out = {}
    for f in glob.glob(os.path.join(PKG, "*.py")):
        try:
            tree = ast.parse(open(f).read())
        except Exception:
            continue
        for n in ast.walk(tree):
            v = _value(n)
            if v is None or isinstance(v, complex) or v != v or abs(v) == float("inf"):
                continue
            k = repr(abs(v))
            out[k] = out.get(k, 0) + 1
    return out


def hot_literals():
    """numbers written more often in the current source than in the source this machinery was built on"""
    try:
        base = json.load(open(os.path.join(VERIF, "mon", "base_literals.json")))
    except Exception:
        base = {}
    ints, floats = set(), set()
    for k, c in mine_literals().items():
        if c <= base.get(k, 0):
            continue
        v = float(k) if not k.isdigit() else int(k)
        if type(v) is int:
            if 2 <= v <= 3_000_000:
                ints.add(v)
            if v >= 2 and v < 1e300:
                floats.add(float(v))
        elif v != 0:
            floats.add(v)
            if v < 1e15 and v == int(v) and 2 <= v <= 3_000_000:
                ints.add(int(v))
    return {"ints": sorted(ints), "floats": sorted(floats)}


# ---------------------------------------------------------------- line coverage of the library (evidence only)
class Cover:
    def __init__(self):
        self.lines = set()
        self.on = False

    def start(self):
        try:
            m = sys.monitoring
            m.use_tool_id(m.COVERAGE_ID, "verif")
            pk = os.path.realpath(PKG)

            def line(code, ln):
                if code.co_filename.startswith(pk) or os.path.realpath(code.co_filename).startswith(pk):
                    self.lines.add((os.path.basename(code.co_filename), ln))
                return m.DISABLE
            m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
            m.set_events(m.COVERAGE_ID, m.events.LINE)
            self.on = True
        except Exception:
            self.on = False


def executable_lines():
    out = {}
    for f in glob.glob(os.path.join(PKG, "*.py")):
        s = set()
        try:
            stack = [compile(open(f).read(), f, "exec")]
        except Exception:
            continue
        while stack:
            c = stack.pop()
            if c.co_name != "<module>":
                s.update(l for (_, _, l) in c.co_lines() if l and l != c.co_firstlineno)
            stack.extend(k for k in c.co_consts if hasattr(k, "co_lines"))
        out[os.path.basename(f)] = s
    return out


# ---------------------------------------------------------------- running cases
def import_library():
    sys.path.insert(0, REPO)
    import allantools
    assert os.path.realpath(os.path.dirname(allantools.__file__)) == os.path.realpath(PKG), allantools.__file__
    return allantools


def run_case(prop, seed, tier, fam, idx, at, hot):
    import numpy as np
    ctx = Ctx(prop, seed, tier, fam.name, idx, at, hot)
    np.random.seed(ctx.r.getrandbits(32))
    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    res = dict(fam=fam.name, idx=idx, status="ok")
    t0 = time.time()

    def onalarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, fam.timeout)
    try:
        try:
            fam.fn(ctx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Skip:
        res["status"] = "skip"
    except Timeout:
        res["status"] = "timeout"
    except Violation as v:
        res.update(status="violation", key=v.key, msg=v.msg, detail=v.detail)
    except MemoryError:
        res["status"] = "memory"
    except Exception as e:
        res.update(status="violation", key="exception",
                   msg="unexpected %s: %s" % (type(e).__name__, e), detail={"trace": traceback.format_exc()[-2500:]})
    res.update(t=time.time() - t0, events=ctx.events, keys=ctx.keys, desc="; ".join(ctx.desc)[:1200],
               ratio=ctx.max_ratio)
    return res


def quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    sys.stderr.flush()
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")


def worker(prop, seed, tier, fams, tasks, counter, deadline, stop, conn, hot):
    try:
        quiet()
        import warnings
        warnings.simplefilter("ignore")
        cov = Cover()
        cov.start()
        at = import_library()
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(tasks) or stop.value or time.time() > deadline:
                break
            fi, idx = tasks[i]
            conn.send(("r", run_case(prop, seed, tier, fams[fi], idx, at, hot)))
        conn.send(("done", cov.lines, cov.on))
    except BaseException as e:
        try:
            conn.send(("crash", traceback.format_exc()))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def load_known(prop):
    known = {}
    try:
        for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2].strip()
                key, what = rest.split(" ", 1)
                known[key.split("=", 1)[1]] = what
    except FileNotFoundError:
        pass
    return known


def main(argv):
    prop = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = importlib.import_module("props." + prop.lower())
    fams = mod.FAMILIES
    hot = hot_literals()
    if len(argv) > 3 and argv[2] == "--replay":
        rp = json.load(open(argv[3]))
        at = import_library()
        fam = [f for f in fams if f.name == rp["family"]][0]
        import warnings
        warnings.simplefilter("ignore")
        r = run_case(prop, rp["seed"], rp["tier"], fam, rp["idx"], at, rp.get("hot", hot))
        print(json.dumps({k: v for k, v in r.items() if k != "keys"}, indent=1, default=str))
        return 1 if r["status"] == "violation" else 0
    only = os.environ.get("VERIF_FAMILY")
    t0 = time.time()
    scale = float(os.environ.get("VERIF_SCALE", "1")) * (getattr(mod, "SCALE", 1) if tier == "quick" else 1)
    lists = []
    for fi, f in enumerate(fams):
        if only and f.name not in only.split(","):
            continue
        n = max(1, int(f.count(tier) * scale))
        lists.append([((k + 0.5) / n, fi, k) for k in range(n)])
    tasks = [(fi, k) for (_, fi, k) in sorted(sum(lists, []))]
    budget = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "780"))
    deadline = t0 + budget
    nproc = min(int(os.environ.get("VERIF_JOBS", "8")), len(tasks))
    import numpy, scipy.stats, scipy.signal, scipy.interpolate, scipy.integrate  # noqa: import once, before forking
    fork = mp.get_context("fork")
    counter, stop = fork.Value("i", 0), fork.Value("i", 0)
    procs, conns = [], []
    for _ in range(nproc):
        a, b = fork.Pipe(duplex=False)
        p = fork.Process(target=worker, args=(prop, seed, tier, fams, tasks, counter, deadline, stop, b, hot), daemon=True)
        p.start()
        b.close()
        procs.append(p)
        conns.append(a)
    events, keys, per, viol, samples, crashes, timeouts = {}, set(), {}, [], {}, [], []
    lines, cov_on, done = set(), True, 0
    live = set(conns)
    slowest = []
    maxratio = 0.0
    most = int(os.environ.get("VERIF_VIOLATIONS", "25"))
    while live:
        ready = mp.connection.wait(list(live), timeout=5)
        if time.time() > deadline + 90:
            for p in procs:
                p.kill()
            crashes.append("workers did not stop at the deadline")
            break
        for c in ready:
            try:
                m = c.recv()
            except EOFError:
                live.discard(c)
                continue
            if m[0] == "r":
                r = m[1]
                st = per.setdefault(r["fam"], dict(ok=0, skip=0, violation=0, timeout=0, memory=0, seconds=0.0))
                st[r["status"]] += 1
                st["seconds"] += r["t"]
                slowest.append((r["t"], r["fam"], r["idx"]))
                if len(slowest) > 2000:
                    slowest = sorted(slowest, reverse=True)[:20]
                for k, v in r["events"].items():
                    events[k] = events.get(k, 0) + v
                keys |= r["keys"]
                maxratio = max(maxratio, r["ratio"])
                if r["status"] == "ok":
                    samples.setdefault(r["fam"], [])
                    if len(samples[r["fam"]]) < 3 and r["desc"]:
                        samples[r["fam"]].append("%s[%d]: %s" % (r["fam"], r["idx"], r["desc"]))
                elif r["status"] == "violation":
                    viol.append(r)
                    if len(viol) >= most:
                        stop.value = 1
                elif r["status"] == "timeout":
                    timeouts.append(r)
                    if len(timeouts) >= 5:
                        stop.value = 1
            elif m[0] == "done":
                lines |= m[1]
                cov_on = cov_on and m[2]
                done += 1
            elif m[0] == "crash":
                crashes.append(m[1])
    for p in procs:
        p.join(5)
    if done < nproc and not crashes:
        crashes.append("a worker process ended without finishing (%d of %d)" % (done, nproc))
    evaluations = sum(v["ok"] + v["violation"] for v in per.values())
    # a case that gives no result again in five times its time limit never returns
    for r in timeouts[:1]:
        fam = [f for f in fams if f.name == r["fam"]][0]
        old, fam.timeout = fam.timeout, fam.timeout * 3
        a, b = fork.Pipe(duplex=False)
        cnt = fork.Value("i", 0)
        p = fork.Process(target=worker, args=(prop, seed, tier, fams, [(fams.index(fam), r["idx"])], cnt,
                                              time.time() + 9999, fork.Value("i", 0), b, hot))
        p.start()
        b.close()
        again = a.recv()[1] if a.poll(fam.timeout + 30) else dict(status="timeout")
        p.kill()
        fam.timeout = old
        if isinstance(again, dict) and again.get("status") == "timeout":
            viol.append(dict(r, status="violation", key="no-result",
                             msg="no result within %g s" % (fam.timeout * 3), detail={}))
        elif isinstance(again, dict) and again.get("status") == "violation":
            viol.append(again)
    known = load_known(prop)
    fresh, seen_known = [], {}
    for r in viol:
        k = "%s/%s" % (r["fam"], r["key"])
        if k in known:
            seen_known[k] = seen_known.get(k, 0) + 1
        else:
            fresh.append(r)
    ex = executable_lines()
    covtxt = {}
    for f, s in sorted(ex.items()):
        hit = {l for (g, l) in lines if g == f} & s
        if hit:
            covtxt[f] = "%d of %d executable lines" % (len(hit), len(s))
    wall = time.time() - t0
    cov = dict(evaluations=evaluations, distinct_nontrivial=len(keys), rule=mod.RULE,
               samples=[s for l in samples.values() for s in l][:40] or ["(none)"],
               monitor_events=events, families={k: {a: (round(b, 2) if isinstance(b, float) else b) for a, b in v.items()}
                                                for k, v in per.items()},
               library_lines_executed=covtxt if cov_on else {}, largest_fraction_of_tolerance_used=maxratio,
               planned=len(tasks), known_findings_seen=seen_known, hot_literals=hot,
               slowest=[("%.2f s %s[%d]" % s) for s in sorted(slowest, reverse=True)[:5]])
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []) + ["float64 IEEE arithmetic; longdouble is the 80-bit x87 type"],
              wall_s=round(wall, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as fp:
        json.dump(ev, fp, indent=1, default=str)
    os.replace(path + ".tmp", path)
    for k, n in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, n))
    code = 0
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        kinds = {}
        for r in fresh:
            kinds.setdefault((r["fam"], r["key"]), []).append(r)
        for (fam, key), rs in sorted(kinds.items())[:8]:
            r = rs[0]
            rp = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop, fam, r["idx"]))
            with open(rp, "w") as fp:
                json.dump(dict(property=prop, family=fam, idx=r["idx"], seed=seed, tier=tier, key=key, message=r["msg"],
                               case=r["desc"], detail=r["detail"], hot=hot, occurrences=len(rs),
                               how="/opt/venv/bin/python /verif/run.py %s --replay %s" % (prop, rp)),
                          fp, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  %s/%s (%d): %s" % (fam, key, len(rs), r["msg"]))
            print("  case: %s" % r["desc"][:500])
        code = 1
    elif crashes:
        print("ERROR: " + "\n".join(crashes)[-3000:])
        code = 2
    else:
        miss = [f.name for f in fams if (not only or f.name in only.split(",")) and per.get(f.name, {}).get("ok", 0) == 0]
        need = getattr(mod, "EVENTS", ["calls"])
        dead = [e for e in need if not events.get(e)]
        if (miss or dead) and not only:
            print("ERROR: inconclusive: families never completed a case: %s; monitors never reached: %s" % (miss, dead))
            code = 2
    print("%s %s seed=%d: %d executions, %d distinct non-trivial, %d comparisons, %.1f s, violations %d, skipped %d, "
          "timeouts %d, max tolerance use %.3g" % (
              prop, tier, seed, evaluations, len(keys), events.get("comparisons", 0) + events.get("assertions", 0), wall,
              len(fresh), sum(v["skip"] for v in per.values()), len(timeouts), maxratio))
    return code
