import math
import numpy as np
from mon import gen, ref
from mon.core import Family, Skip

SCALE = 3      # quick-tier multiplier of the family counts
RULE = ("A case is one history: one to five streaming objects (overlapping Allan, overlapping Hadamard, time deviation; fixed or "
        "automatic factors; phase, frequency or mixed feeds) fed sample by sample, interleaved, with an online monitor that "
        "after samples compares taus(), devs() and mdev() with the definitional statistic of exactly the samples fed so far. "
        "Non-trivial: distinct histories in which at least one non-zero value was compared.")
EVENTS = ["calls", "prefixes compared", "values compared", "automatic factors seen", "zero values before enough samples",
          "first values seen", "frequency samples fed", "interleaved feeds", "typed records fed", "endless streams"]

KIND = {"oadev": ("oadev_realtime", ref.oadev, lambda N, m: N - 2 * m),
        "ohdev": ("ohdev_realtime", ref.ohdev, lambda N, m: N - 3 * m),
        "tdev": ("tdev_realtime", ref.tdev, lambda N, m: N - 3 * m + 1)}
L = np.longdouble


def grid(ppd, top):
    out, d = [1], 0
    base = np.logspace(0, 1, ppd + 1)[:-1]
    while out[-1] <= top:
        for b in base:
            v = int(np.round(10.0 ** d * b))
            if v > out[-1]:
                out.append(v)
        d += 1
    return out


class Stream:
    """one object under monitoring and the record of everything fed to it"""
    def __init__(self, ctx, top, name=None, auto=None, afs=None, tau0=None):
        r = ctx.r
        self.ctx = ctx
        self.name = name or r.choice(list(KIND))
        self.auto = r.random() < .4 if auto is None else auto
        self.ppd = r.choice([4, 4, 1, 2, 3, 5, 7, 10, 20])
        self.tau0 = tau0 if tau0 is not None else 1 / float(gen.rate(ctx)) if r.random() < .8 else r.choice([1, 2, 10, 60, 900, 3600, 86400, 10 ** 6, np.int64(3600), np.int32(86400), np.float32(.1)])
        cls = getattr(ctx.at.realtime, KIND[self.name][0])
        kw = {}
        if not (self.tau0 == 1 and r.random() < .5):
            kw["tau0"] = self.tau0
        if self.auto:
            kw["auto_afs"] = True
            if self.ppd != 4 or r.random() < .5:
                kw["pts_per_decade"] = self.ppd
            if r.random() < .3:
                kw["afs"] = r.choice([[1], [1, 2, 4], [3]])
            self.grid = grid(self.ppd, top)
        else:
            fs = afs or gen.factors(ctx, max(1, top // 2), k=r.randint(1, 6))
            if afs is None:
                r.shuffle(fs)
                while r.random() < .15:
                    fs.insert(r.randint(0, len(fs)), r.choice(fs))
                    if r.random() < .5:
                        fs.sort()
                if r.random() < .1:
                    fs = fs + [top * 3]
            self.afs = list(fs)
            if self.afs == [1] and r.random() < .5:
                pass
            else:
                kw["afs"] = r.choice([lambda: list(fs), lambda: tuple(fs), lambda: np.array(fs)])() if afs is None else afs
        self.obj = ctx.call(cls, **kw)
        self.given = kw.get("afs")
        self.x = []           # longdouble phase of everything fed
        self.freqfed = 0
        self.maxdev = {}
        self.seen = set()
        self.label = "%s(%s)" % (self.name, ", ".join("%s=%r" % i for i in kw.items()))

    def feed(self, kind, v):
        c = self.ctx
        if kind == "phase":
            c.call(self.obj.add_phase, v)
            self.x.append(L(v))
        else:
            c.call(self.obj.add_frequency, v)
            if not self.x:
                self.x.append(L(0))
            self.x.append(self.x[-1] + L(v) * L(self.tau0))
            self.freqfed += 1
            c.obs("frequency samples fed")

    def compare(self):
        c = self.ctx
        N = len(self.x)
        x = np.array(self.x, dtype=L)
        A = ref.amax(x)
        taus = np.array(c.call(self.obj.taus), dtype=float)
        devs = np.array(c.call(self.obj.devs), dtype=float)
        what = "%s after %d samples" % (self.label, N)
        c.check(taus.ndim == 1 and taus.shape == devs.shape, "shape", what + ": taus() and devs() differ in length", taus=taus,
                devs=devs)
        afs = [int(round(float(t) / float(self.tau0))) for t in taus]
        if self.auto:
            c.check(afs == self.grid[:len(afs)] and len(afs) >= 1, "auto", "%s: factors %s, expected the grid %s" % (
                what, afs, self.grid[:len(afs) + 1]))
            c.check(2 * self.grid[len(afs)] + 1 > N or 3 * self.grid[len(afs)] + 1 > N, "auto",
                    "%s: factor %d still missing" % (what, self.grid[len(afs)]))
            if len(afs) > 1:
                c.obs("automatic factors seen", len(afs) - 1)
        else:
            c.check(afs == self.afs, "factors", "%s: factors %s" % (what, afs))
        c.nears(taus, np.array(afs) * float(self.tau0), 1e-12 * np.abs(taus), "taus", what + ": taus()")
        md = np.array(c.call(self.obj.mdev), dtype=float) if self.name == "tdev" else None
        fn, usable = KIND[self.name][1:]
        rate = L(1) / L(self.tau0)
        for i, m in enumerate(afs):
            n = usable(N, m)
            if n < 1:
                c.check(devs[i] == 0, "early", "%s m=%d: %r before enough samples" % (what, m, devs[i]))
                c.obs("zero values before enough samples")
                continue
            if m not in self.seen:
                self.seen.add(m)
                c.obs("first values seen")
            D, n_, e = fn(x, rate, m)
            assert n_ == n
            self.maxdev[m] = max(self.maxdev.get(m, 0.0), float(D))
            sc = 1.0 if self.name == "tdev" else 1 / (float(self.tau0) * m)
            tol = e + (16 + 4 * N / m) * ref.EPS * A * sc + 8 * N * ref.EPS * self.maxdev[m] + 1e-9 * float(D) + 1e-300
            if self.freqfed:
                tol += 12 * (m + 1) * ref.EPS * A * sc
            c.near(devs[i], D, tol, "value", "%s m=%d" % (what, m), feed=[float(v) for v in self.x] if N < 3000 else None)
            if md is not None:
                k = math.sqrt(3) / (m * float(self.tau0))
                c.near(md[i], D * L(k), tol * k, "mdev", "%s m=%d mdev()" % (what, m))
            c.obs("values compared")
            if float(D) > 100 * tol:
                c.obs("values well above rounding")
        c.obs("prefixes compared")


def samples(ctx, n):
    k = ctx.r.choice(gen.NOISY + ["const", "zero", "bigoffset"])
    s = ctx.r.choice(gen.SCALES)
    return gen._kind(ctx, n, k) * s, "%s*%g" % (k, s)


TYPES = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "float16", "float32", "float32", "int", "longdouble"]


def typed(ctx, v):
    """the samples as numbers of another type, as iterating a typed array gives them; the record is what the type can hold"""
    t = ctx.r.choice(TYPES)
    v = np.asarray(v, dtype=float)
    if t == "longdouble":
        return [np.longdouble(q) for q in v], t
    A = float(np.max(np.abs(v)))
    if t.startswith("float"):
        if A > 0 and (A > 6e4 if t == "float16" else A > 1e30):
            v = v / A
        w = v.astype(t)
        if not np.any(np.diff(w.astype(float))) and A > 0:
            w = ((v - np.min(v)) / max(float(np.max(v) - np.min(v)), 1e-300)).astype(t)
        return list(w), t
    lo, hi = (0, 2 ** 20) if t == "int" else (int(np.iinfo(t).min), int(np.iinfo(t).max))
    lo, hi = max(lo, -2 ** 40), min(hi, 2 ** 40)
    span = float(np.max(v) - np.min(v))
    u = (v - np.min(v)) / span if span > 0 else np.full(len(v), ctx.r.random())
    w = np.clip(np.round(lo + u * (hi - lo)), lo, hi).astype("int64")
    return ([int(q) for q in w] if t == "int" else list(w.astype(t))), t


def history(ctx):
    """several objects, interleaved feeds, every prefix compared"""
    r = ctx.r
    k = r.choice([1, 1, 2, 3, 4])
    N = gen.length(ctx, 4, 160)
    shared = gen.factors(ctx, max(1, N // 3), k=3) if r.random() < .3 else None
    streams = []
    plan = []
    for j in range(k):
        a = False if shared is not None else None
        streams.append([None, dict(auto=a, afs=shared), None])
        v, d = samples(ctx, N)
        if r.random() < .3:
            v, t = typed(ctx, v)
            d += " as " + t
            ctx.obs("typed records fed")
        mode = r.choice(["phase", "phase", "freq", "mixed"])
        streams[-1][2] = (v, mode, d)
    order = [j for j in range(k) for _ in range(N)]
    if r.random() < .6:
        r.shuffle(order)
    pos = [0] * k
    last = None
    touched = set()
    for j in order:
        if streams[j][0] is None:
            streams[j][0] = Stream(ctx, N + 1, **streams[j][1])
            ctx.say("%s %s %s", streams[j][0].label, *streams[j][2][1:])
        s, _, (v, mode, _) = streams[j]
        kind = mode if mode != "mixed" else r.choice(["phase", "freq"])
        val = v[pos[j]]
        if type(val) is not np.float64:
            pass
        elif r.random() < .02 and val == int(val) and abs(val) < 1e9:
            val = int(val)
        elif r.random() < .9:
            val = float(val)
        s.feed(kind, val)
        pos[j] += 1
        s.compare()
        if last is not None and last is not s:
            ctx.obs("interleaved feeds")
            touched.add(id(last))
            if r.random() < .3:
                last.compare()      # feeding one object changes no other
        last = s
    for s in streams:
        s[0].compare()
        ctx.note(s[0].label, np.array(s[2][0], dtype=float), s[2][1])
    if shared is not None:
        for s in streams:
            ctx.check(s[0].given is None or list(s[0].given) == s[0].afs, "arguments", "the factor list passed in was changed", given=s[0].given)


def long(ctx):
    """long streams, compared at selected prefixes and whenever a factor gets its first values"""
    r = ctx.r
    N = gen.length(ctx, 200, 12000 if not ctx.thorough else 60000)
    s = Stream(ctx, N + 1, name=list(KIND)[ctx.idx % 3])
    v, d = samples(ctx, N)
    mode = r.choice(["phase", "phase", "freq"])
    if r.random() < .3:
        v, t = typed(ctx, v)
        d += " as " + t
    ctx.say("%s %s %s N=%d", s.label, d, mode, N)
    marks = set(r.randrange(1, N + 1) for _ in range(6)) | {N, N + 1, N - 1}
    for q in ctx.hot["ints"]:
        marks |= {q - 1, q, q + 1, q + 2}
    for m in (s.grid if s.auto else s.afs):
        if m * 3 < N and r.random() < .5:
            marks |= {2 * m + 1, 3 * m, 3 * m + 1, 3 * m + 2, 4 * m}
    for q in v:
        s.feed(mode, q if type(q) is not np.float64 or r.random() < .1 else float(q))
        if len(s.x) in marks:
            s.compare()
    s.compare()
    ctx.note(s.label, np.array(v, dtype=float), mode)


def endless(ctx):
    """streams far longer than any buffer is likely to be, next to numbers that are new in the source if there are some"""
    r = ctx.r
    auto = r.random() < .2
    top = 150_000 if auto else 1_100_000
    hot = [v for v in ctx.hot["ints"] if 6000 < v < top]
    if hot and r.random() < .7:
        N = int(r.choice(hot) * r.choice([1, 1, 1.1, 1.5])) + r.randint(2, 40)
    else:
        N = int(10 ** r.uniform(4.3, 5)) // (3 if auto else 1)
    s = Stream(ctx, N + 1, name=list(KIND)[ctx.idx % 3], auto=auto, afs=None if auto else sorted(
        set([1] + [int(10 ** r.uniform(0, 4.5)) for _ in range(2)])))
    v, d = samples(ctx, N)
    mode = r.choice(["phase", "phase", "freq"])
    ctx.say("%s %s %s N=%d", s.label, d, mode, N)
    marks = {N // 2, N - 1}
    for q in hot:
        marks |= {q, q + 1, q + 2, 2 * q}
    for q in v:
        s.feed(mode, float(q))
        if len(s.x) in marks:
            s.compare()
    s.compare()
    ctx.obs("endless streams")
    ctx.note(s.label, np.array(v, dtype=float), mode)


def batch(ctx):
    """stream and the library's own batch statistic of the same samples"""
    at, r = ctx.at, ctx.r
    name = list(KIND)[ctx.idx % 3]
    N = gen.length(ctx, 8, 600)
    afs = gen.factors(ctx, max(1, (N - 2) // 3), k=5)
    rate = gen.rate(ctx)
    s = Stream(ctx, N + 1, name=name, auto=False, afs=afs, tau0=1 / float(rate))
    v, d = samples(ctx, N)
    freq = r.random() < .5
    if r.random() < .3:
        v, t = typed(ctx, v)
        d += " as " + t
        v = np.array(v)
    ctx.say("%s %s %s N=%d against the batch function", s.label, d, "freq" if freq else "phase", N)
    for q in v:
        s.feed("freq" if freq else "phase", q)
    s.compare()
    devs = np.array(s.obj.devs())
    md = np.array(s.obj.mdev()) if name == "tdev" else None
    for fn, got in [(name, devs)] + ([("mdev", md)] if name == "tdev" else []):
        t, b, _, n = ctx.call(getattr(at, fn), v, rate=rate, data_type="freq" if freq else "phase",
                              taus=np.array(afs) / float(rate))
        A = ref.amax(np.array(s.x)) * 4
        for i, q in enumerate(t):
            m = int(round(float(q) * float(rate)))
            g = got[afs.index(m)]
            P = A + (float(np.max(np.abs(v.astype(float)))) * N / float(rate) if freq else 0)
            e = (64 + 24 * m + 16 * N / m) * ref.EPS * P * (1 if fn == "tdev" else float(rate) / m)
            ctx.near(g, b[i], 1e-8 * abs(b[i]) + e + 16 * N * ref.EPS * s.maxdev[m] * (1 if fn == name else float(rate) / m * 2),
                     "batch", "%s stream against batch m=%d" % (fn, m))
            ctx.obs("batch values compared")
    ctx.note("batch", name, v)


def equivalence(ctx):
    """feeding frequency equals feeding its integral; one object equals another fed the same"""
    r = ctx.r
    N = gen.length(ctx, 5, 200)
    name = list(KIND)[ctx.idx % 3]
    v, d = samples(ctx, N)
    tau0 = 1 / float(gen.rate(ctx))
    auto = r.random() < .5
    afs = None if auto else gen.factors(ctx, max(1, N // 3), k=4)
    a = Stream(ctx, N + 1, name=name, auto=auto, afs=afs, tau0=tau0)
    cls = type(a.obj)
    b = ctx.call(cls, tau0=tau0, auto_afs=auto, pts_per_decade=a.ppd, **({} if auto else {"afs": list(afs)}))
    x = [0.0]
    for q in v:
        x.append(x[-1] + float(q) * tau0)
    b.add_phase(x[0])
    ctx.say("%s frequency feed against integrated phase N=%d", a.label, N)
    A = float(np.max(np.abs(x)))
    for i, q in enumerate(v):
        a.feed("freq", float(q))
        b.add_phase(x[i + 1])
        da, db = np.array(a.obj.devs()), np.array(b.devs())
        ctx.check(da.shape == db.shape and np.array_equal(a.obj.taus(), b.taus()), "equivalent", "other factors")
        m = np.maximum(1, np.round(np.array(b.taus()) / tau0))
        sc = 1.0 if name == "tdev" else 1 / (tau0 * m)
        ctx.nears(da, db, 1e-8 * np.abs(db) + 64 * (N + 2 * m) * ref.EPS * A * sc + 1e-300, "equivalent",
                  "%s: frequency feed differs from integrated phase after %d" % (a.label, i + 1))
    a.compare()
    ctx.note("eq", name, v)


FAMILIES = [Family(history, 1600, 40000), Family(long, 90, 1500, timeout=180), Family(endless, 12, 200, timeout=300), Family(batch, 900, 20000),
            Family(equivalence, 500, 12000)]
