import os, sys, threading, time, warnings
import numpy as np
from mon import gen, ref, stat
from mon.core import Family, Skip, Violation, short
from props.c05 import noise, SLOW

SCALE = 3      # quick-tier multiplier of the family counts
RULE = ("A case is a group of executions of library functions (statistics, conversions, noise identification, degrees of freedom, "
        "spectra) with monitors around each: byte snapshots of every argument, of the random state, numpy error state, warning "
        "filters and working directory; bitwise comparison of repeated, permuted, interleaved, aliased and concurrent executions; "
        "comparison across containers and sample types. Non-trivial: distinct (function, data) groups.")
EVENTS = ["calls", "snapshots compared", "containers compared", "interleaved results compared", "thread results compared",
          "number types compared", "forced thread switches", "overlapping executions"]
NAMES = list(stat.STATS) + ["gradev", "gcodev", "mtie_phase_fast"]


def flat(o):
    """everything numeric in a result, as a list of arrays"""
    if o is None:
        return []
    if isinstance(o, dict):
        return [a for k in sorted(o) for a in flat(o[k])]
    if isinstance(o, (tuple, list)):
        if o and all(isinstance(v, (int, float, np.floating, np.integer)) for v in o):
            return [np.asarray(o, dtype=float)]
        return [a for v in o for a in flat(v)]
    if isinstance(o, str):
        return []
    return [np.asarray(o, dtype=float)]


def equal(a, b, tol=1e-12):
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        return False
    for u, v in zip(fa, fb):
        if u.shape != v.shape:
            return False
        with np.errstate(all="ignore"):
            if not np.all((u == v) | (np.isnan(u) & np.isnan(v)) | (np.abs(u - v) <= tol * np.abs(v))):
                return False
    return True


def snap(o):
    if isinstance(o, np.ndarray):
        return ("a", o.dtype.str, o.shape, o.tobytes(), o.flags.writeable)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(snap(v) for v in o)
    if isinstance(o, dict):
        return tuple((k, snap(v)) for k, v in o.items())
    return repr(o)


def environment():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], repr(np.geterr()), repr(warnings.filters), os.getcwd(), repr(np.get_printoptions()),
            sys.getrecursionlimit())


def jobs(ctx, k, lo=24, hi=300, share=False):
    """k executions (label, function, args, kwargs) over a wide part of the interface"""
    r, at = ctx.r, ctx.at
    from allantools import ci, noise as nz, mask
    out = []
    N0 = gen.length(ctx, lo, hi)
    rate0 = gen.rate(ctx)
    for i in range(k):
        N = N0 if share or r.random() < .5 else gen.length(ctx, lo, hi)
        rate = rate0 if share or r.random() < .5 else gen.rate(ctx)
        x = gen._kind(ctx, N, r.choice(gen.NOISY)) * r.choice([1, 1e-9, 1e3])
        u = r.random()
        if u < .62:
            name = r.choice(NAMES)
            if name in SLOW:
                x = x[:SLOW[name]]
            n = len(x)
            base = {"gradev": "oadev", "gcodev": "oadev"}.get(name, name)
            if name == "mtie_phase_fast":
                out.append((name, at.mtie_phase_fast, (x,), dict(rate=rate)))
                continue
            ms = gen.factors(ctx, stat.mmax(base, n), k=3)
            if name == "theo1":
                ms = [2 * m for m in ms if 2 * m < n - 2] or [2]
            taus = np.array(ms) / float(rate)
            if r.random() < .4:
                taus = list(taus)
                if r.random() < .6:      # unordered, repeated and unusable requests
                    taus = taus + [taus[r.randrange(len(taus))]] + [0.0] * r.randint(0, 1)
                    r.shuffle(taus)
                if r.random() < .5:
                    taus = np.array(taus)
            kw = dict(rate=rate, taus=taus, data_type=r.choice(["phase", "phase", "freq"]) if name != "gradev" else "phase")
            if name == "gradev":
                kw["noisetype"] = r.choice(["wp", "fp", "wf", "ff", "rf"])
                if r.random() < .5:
                    x[r.randrange(n)] = np.nan
                kw["ci"] = r.choice([.5, .9])
            if kw["data_type"] == "freq":
                kw["taus"] = taus
            if r.random() < .15 and kw["data_type"] == "phase" and name not in SLOW:
                kw["taus"] = r.choice(["octave", "decade", None, []])
            if name != "gcodev" and r.random() < .15:
                x = [float(q) for q in x]
            args = (x, gen._kind(ctx, n, "white")) if name == "gcodev" else (x,)
            out.append((name, getattr(at, name), args, kw))
            continue
        fs = float(rate)
        alpha = r.choice([2, 1, 0, -1, -2])
        pick = r.randrange(17)
        m = r.randint(1, 6)
        out.append([
            lambda: ("frequency2phase", at.frequency2phase, (x, rate), {}),
            lambda: ("phase2frequency", at.phase2frequency, (x, rate), {}),
            lambda: ("phase2radians", at.phase2radians, (x, 1e6), {}),
            lambda: ("frequency2fractional", at.frequency2fractional, (x + 1e7 * np.ptp(x) + 1,), {}),
            lambda: ("confidence_interval", at.confidence_interval, (float(np.std(x)), r.uniform(1, 50), r.choice([.3, .68, .95])), {}),
            lambda: ("autocorr_noise_id", at.autocorr_noise_id, (gen._kind(ctx, 200, "white"), r.randint(1, 5)), dict(data_type=r.choice(["phase", "freq"]))),
            lambda: ("edf_greenhall", at.edf_greenhall, (alpha, 2, m, 64), dict(overlapping=r.random() < .5, modified=r.random() < .5)),
            lambda: ("edf_simple", at.edf_simple, (100, m, alpha), {}),
            lambda: ("edf_totdev", at.edf_totdev, (100, m, min(alpha, 0)), {}),
            lambda: ("edf_mtotdev", at.edf_mtotdev, (100, m, alpha), {}),
            lambda: ("rn", ci.rn, (x, m, 1.0), {}),
            lambda: ("b1", ci.b1, (x, m, rate), {}),
            lambda: ("psd2allan", at.psd2allan, (np.abs(x[:20]) + .1,), dict(f=.25, kind=r.choice(["adev", "mdev"]))),
            lambda: ("numpy_psd", nz.numpy_psd, (x, fs), {}),
            lambda: ("tau_generator", at.tau_generator, (x, rate), dict(taus=r.choice(["all", "octave", "decade", "log10"]))),
            lambda: ("three_cornered_hat", at.three_cornered_hat_phase, (x, x[::-1].copy(), x * 2, rate, np.array([1, 2]) / float(rate), at.oadev), {}),
            lambda: ("adev2psd", at.adev2psd_piecewise_approx, (np.array([3., 1.2, .8]), np.array([1., 10, 100])), {}),
        ][pick]())
    return out


def run(ctx, job):
    name, f, a, k = job
    return ctx.call(f, *a, **k)


def pure(ctx):
    """one call: nothing outside it changes, and calling again gives the same"""
    job = jobs(ctx, 1)[0]
    name, f, a, k = job
    if ctx.r.random() < .3:
        for v in a:
            if isinstance(v, np.ndarray):
                v.setflags(write=False)
    ctx.say("%s %s", name, {q: v for q, v in k.items() if not isinstance(v, np.ndarray)})
    e0, s0 = environment(), snap((a, k))
    old = np.seterr(**{q: ctx.r.choice(["ignore", "warn"]) for q in ("divide", "over", "under", "invalid")})
    e0 = environment()
    try:
        o1 = run(ctx, job)
        e1 = environment()
    finally:
        pass
    ctx.check(e1 == e0, "environment", "%s changes process-wide state: %s" % (
        name, [q for q, u, v in zip(("rng", "rng", "rng", "errstate", "warnings", "cwd", "print", "recursion"), e0, e1) if u != v]))
    ctx.check(snap((a, k)) == s0, "arguments", "%s changes its arguments" % name)
    keep = [np.array(v, copy=True) for v in flat(o1)]
    o2 = run(ctx, job)
    ctx.check(equal(o1, o2), "repeat", "%s: second call differs" % name, first=o1, second=o2)
    np.seterr(**old)
    ctx.obs("snapshots compared", 4)
    # results belong to the caller: overwriting them affects nothing else
    for v in _arrays(o2):
        if v.flags.writeable and v.dtype.kind == "f":
            v[...] = -7.25
    ctx.check(snap((a, k)) == s0, "aliasing", "%s: writing to the result changes the input" % name)
    ctx.check(all(np.array_equal(u, v, equal_nan=True) for u, v in zip(keep, flat(o1))), "aliasing",
              "%s: writing to one result changes an earlier one" % name)
    o3 = run(ctx, job)
    ctx.check(equal(o3, keep) if len(keep) == len(flat(o3)) else False, "aliasing", "%s: writing to a result changes later ones" % name)
    # later changes of the input affect no earlier result
    for v in a:
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = v[::-1] * 1.5 + 1
    ctx.check(equal(o3, keep), "aliasing", "%s: changing the input afterwards changes the result" % name)
    ctx.note(name, *[v for v in a if isinstance(v, np.ndarray)])


def _arrays(o):
    if isinstance(o, np.ndarray):
        return [o]
    if isinstance(o, (tuple, list)):
        return [v for q in o for v in _arrays(q)]
    return []


def inplace(ctx):
    """the same array object with new contents must give the new result (no caching on identity, length or rate)"""
    name = list(stat.STATS)[ctx.idx % len(stat.STATS)]
    N = gen.length(ctx, 12, SLOW.get(name, 400))
    rate = gen.rate(ctx)
    x = np.array(gen._kind(ctx, N, "white"))
    ms = gen.factors(ctx, stat.mmax(name, N), k=3)
    if name == "theo1":
        ms = sorted(set(max(2, m - m % 2) for m in ms))
    dt = ctx.r.choice(["phase", "freq"])
    if dt == "freq" and name == "theo1":
        ms = [m for m in ms if m < N - 2] or [2]
    taus = np.array(ms) / float(rate)
    f = getattr(ctx.at, name)
    ctx.say("%s %s in-place modification", name, dt)
    for step in range(ctx.r.choice([2, 3, 4])):
        out = ctx.call(f, x, rate=rate, data_type=dt, taus=taus)
        stat.verify(ctx, name, x.copy(), rate, dt, ms, taus, out, tag=" after in-place change %d" % step)
        how = ctx.r.choice(["all", "one", "tail", "scale"])
        if how == "all":
            x[:] = gen._kind(ctx, N, ctx.r.choice(gen.NOISY))
        elif how == "one":
            x[ctx.r.randrange(1, N - 1)] += 5 * (np.ptp(x) or 1)
        elif how == "tail":
            x[N // 2:] += ctx.rng.standard_normal(N - N // 2) * 3
        else:
            x *= 2.5
        if ctx.r.random() < .4:
            rate = gen.rate(ctx)
            taus = np.array(ms) / float(rate)
    ctx.obs("interleaved results compared", 2)
    ctx.note(name, x)


INTS = [np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64]


def containers(ctx):
    """one set of sample values in many representations"""
    name = NAMES[ctx.idx % len(NAMES)]
    N = gen.length(ctx, 12, SLOW.get(name, 500))
    how = ctx.r.choice(["int", "int", "float32", "float16", "layout", "layout"])
    lo, hi = 0, 100
    forms = []
    if how == "int":
        dt = ctx.r.choice(INTS)
        ii = np.iinfo(dt)
        u = ctx.r.random()
        lo, hi = (ii.min, ii.max) if u < .5 else (ii.max - 50, ii.max) if u < .7 else (0, 100)
        if dt in (np.int64, np.uint64):
            lo, hi = max(lo, -2 ** 53), min(hi, 2 ** 53)
            if lo >= hi:
                lo = hi - 100
        v = np.array([ctx.r.randint(int(lo), int(hi)) for _ in range(N)], dtype=dt)
        if ctx.r.random() < .4:
            v = np.sort(v)
        forms = [v, [int(q) for q in v], list(v), tuple(int(q) for q in v), v.astype(v.dtype.newbyteorder(">"))]
        base = v.astype(np.float64)
    elif how in ("float32", "float16"):
        dt = np.dtype(how)
        big = ctx.r.choice([1.0, 1.0, 1e4, 3e4]) if how == "float16" else ctx.r.choice([1, 1e6, 1e30, 1e-20, 1e10])
        v = (gen._kind(ctx, N, ctx.r.choice(["white", "sine", "step"])) * 1.0)
        v = (v / np.max(np.abs(v)) * big + ctx.r.choice([0, big])).astype(dt)
        base = v.astype(np.float64)
        forms = [v, list(v), v[::-1].copy()[::-1]]
        if not np.all(np.isfinite(base)):
            raise Skip()
    else:
        base = gen._kind(ctx, N, ctx.r.choice(gen.NOISY))
        y = np.zeros((N, 3))
        y[:, 1] = base
        z = np.zeros(2 * N)
        z[::2] = base
        ro = base.copy()
        ro.setflags(write=False)
        ib = [v for v in (base.astype(">f8"), np.ascontiguousarray(base))]
        forms = [list(base), tuple(base), [float(q) for q in base], y[:, 1], z[::2], base[::-1].copy()[::-1], ro] + ib
        if np.all(base == np.round(base)):
            forms.append([int(q) for q in base])
        forms += [np.asfortranarray(y)[:, 1], memoryview(base.copy()) if False else base.copy()]
    rate = gen.rate(ctx)
    dtp = ctx.r.choice(["phase", "phase", "freq"]) if name != "mtie_phase_fast" else "phase"
    bname = {"gradev": "oadev", "gcodev": "oadev"}.get(name, name)
    f = getattr(ctx.at, name)
    kw = dict(rate=rate)
    if name != "mtie_phase_fast":
        ms = gen.factors(ctx, stat.mmax(bname, N), k=3)
        if name == "theo1":
            ms = sorted(set(max(2, m - m % 2) for m in ms))
        kw.update(data_type=dtp, taus=np.array(ms) / float(rate))
    ctx.say("%s N=%d %s %s %s", name, N, dtp, how, getattr(forms[0], "dtype", type(forms[0])))

    def go(d):
        return ctx.call(f, d, d, **kw) if name == "gcodev" else ctx.call(f, d, **kw)
    want = go(base.copy())
    if name in stat.STATS:
        stat.verify(ctx, name, base, rate, dtp, ms, kw["taus"], want)
    for d in ctx.r.sample(forms, min(4, len(forms))):
        s = snap(d)
        got = go(d)
        ctx.check(equal(got, want, 1e-9), "container", "%s on %s (%s) differs from the float64 array" % (
            name, type(d).__name__, getattr(d, "dtype", type(d[0]).__name__)), got=got, want=want, values=d)
        ctx.check(snap(d) == s, "arguments", "%s changes its %s argument" % (name, type(d).__name__))
        ctx.obs("containers compared")
    ctx.note(name, base, how)


def converters(ctx):
    """conversions, identification and spectra across containers"""
    from allantools import ci, noise as nz
    at = ctx.at
    N = gen.length(ctx, 40, 400)
    how = ctx.r.choice(["int", "float32", "list"])
    if how == "int":
        dt = ctx.r.choice(INTS)
        ii = np.iinfo(dt)
        v = np.array([ctx.r.randint(max(ii.min, -2 ** 52), min(ii.max, 2 ** 52)) for _ in range(N)], dtype=dt)
    elif how == "float32":
        v = (gen._kind(ctx, N, "white") * 1e3 + ctx.r.choice([0, 1e6])).astype(np.float32)
    else:
        v = [float(q) for q in gen._kind(ctx, N, "white")]
    base = np.asarray(v, dtype=np.float64)
    rate = gen.rate(ctx)
    af = ctx.r.choice([1, 2, 3]) if N >= 100 else 1
    tests = [
        ("frequency2phase", lambda d: at.frequency2phase(d, rate), 1e-9),
        ("phase2frequency", lambda d: at.phase2frequency(d, rate), 1e-9),
        ("phase2radians", lambda d: at.phase2radians(d, 1e3), 1e-12),
        ("frequency2fractional", lambda d: at.frequency2fractional(d), None),
        ("frequency2fractional-nominal", lambda d: at.frequency2fractional(d, mean_frequency=1000), 1e-12),
        ("autocorr_noise_id", lambda d: at.autocorr_noise_id(d, af, "phase"), 1e-6),
        ("autocorr_noise_id-freq", lambda d: at.autocorr_noise_id(d, af, "freq"), 1e-6),
        ("b1", lambda d: ci.b1(d, af, rate), 1e-9),
        ("rn", lambda d: ci.rn(d, af, rate), 1e-9),
        ("lag1_acf", lambda d: ci.lag1_acf(d) if hasattr(ci, "lag1_acf") else (), None),
        ("numpy_psd", lambda d: nz.numpy_psd(np.asarray(d), float(rate)), None),
        ("remove", lambda d: at.trim_data(d), 0),
    ]
    for name, f, tol in ctx.r.sample(tests, 5):
        if how == "list" and name in ("numpy_psd",):
            continue
        if tol is None and how != "list":
            continue
        s = snap(v)
        a, b = ctx.call(f, base.copy()), ctx.call(f, v)
        ctx.check(snap(v) == s, "arguments", "%s changes its argument" % name)
        fa, fb = flat(a), flat(b)
        ctx.check(len(fa) == len(fb), "container", "%s on %s: other structure" % (name, how))
        for p, q in zip(fa, fb):
            sc = np.max(np.abs(p)) if p.size else 0
            ctx.check(p.shape == q.shape and np.all(np.abs(p - q) <= (tol or 1e-12) * sc + 1e-300), "container",
                      "%s on %s differs from the float64 array" % (name, getattr(v, "dtype", how)), got=b, want=a, values=v)
        ctx.obs("containers compared")
    ctx.note("conv", base, how)


def together(ctx):
    """asking for several averaging times at once, in any order, gives what asking one at a time gives"""
    names = list(stat.STATS) + ["gradev"]
    name = names[ctx.idx % len(names)]
    N = gen.length(ctx, 12, SLOW.get(name, 1500))
    x = gen.record(ctx, N, kinds=gen.NOISY)
    rate = gen.rate(ctx)
    base = "oadev" if name == "gradev" else name
    ms = gen.factors(ctx, stat.mmax(base, N), k=4 if name in SLOW else 9)
    if name == "theo1":
        ms = sorted(set(max(2, m - m % 2) for m in ms))
    f = getattr(ctx.at, name)
    sh = list(ms)
    ctx.r.shuffle(sh)
    ctx.say("%s together/alone ms=%s", name, ms)
    a = ctx.call(f, x, rate=rate, taus=np.array(sh) / float(rate))
    ctx.check(len(a[0]) == len(ms), "together", "%d values for %d factors" % (len(a[0]), len(ms)))
    for i, m in enumerate(ms):
        o = ctx.call(f, x, rate=rate, taus=[m / float(rate)])
        ctx.check(equal([v[i] for v in (a[0], a[1], a[3])], [v[0] for v in (o[0], o[1], o[3])]), "together",
                  "%s m=%d differs when %d averaging times are requested together" % (name, m, len(ms)),
                  alone=o, together=[v[i] for v in (a[0], a[1], a[3])])
        if name == "gradev":
            ctx.check(equal([a[2][0][i], a[2][1][i]], [o[2][0][0], o[2][1][0]], 1e-9), "together", "gradev errors differ")
        else:
            ctx.check(equal(a[2][i], o[2][0]), "together", "%s error bars differ" % name)
        ctx.obs("interleaved results compared")
    ctx.note(name, x, tuple(ms))


def numbers(ctx):
    """the rate and the averaging times as numbers of another type"""
    r = ctx.r
    name = [n for n in NAMES if n != "mtie_phase_fast"][ctx.idx % (len(NAMES) - 1)]
    N = gen.length(ctx, 12, 60 if name in SLOW else 3000, far=70000 if name in ("oadev", "mdev", "gcodev", "hdev") else 0)
    x = gen.record(ctx, N, kinds=gen.NOISY)
    R = r.choice([1, 2, 4, 64, 10, 100, 1000, 1200, .5, .25, .125, 12.5, 1 / 1024.])
    base = {"gradev": "oadev", "gcodev": "oadev"}.get(name, name)
    top = stat.mmax(base, N)
    ms = [m for m in gen.factors(ctx, top, k=6) + [int(R), 2 * int(R), 5 * int(R)] if 0 < m <= top]
    if name == "theo1":
        ms = [max(2, m - m % 2) for m in ms]
    taus = sorted(set(m / float(R) for m in ms))
    dt = r.choice(["phase", "phase", "freq"])
    f = getattr(ctx.at, name)

    def go(rate, taus):
        return ctx.call(f, x, x[::-1].copy(), rate=rate, data_type=dt, taus=taus) if name == "gcodev" else \
            ctx.call(f, x, rate=rate, data_type=dt, taus=taus)
    word = r.choice(["octave", "decade", None]) if r.random() < .3 and name not in SLOW else 0
    want = go(float(R), taus if word == 0 else word)
    for T in r.sample(["float16", "float32", "int8", "uint8", "int16", "int32", "int64", "uint64", "float64", "int"], 4):
        conv = int if T == "int" else np.dtype(T).type
        for what in ("taus", "rate"):
            if what == "rate":
                q, tol = R, {"float16": 1e-2, "float32": 1e-6}.get(T, 1e-9)
                if T == "float16" and word != 0:
                    continue
            elif word != 0:
                continue
            else:
                q, tol = np.array(taus), 1e-9
            if "int" in T and np.any(np.asarray(q) != np.round(q)):
                continue
            if T not in ("int", "float64") and "int" in T and np.max(q) > np.iinfo(T).max:
                continue
            with np.errstate(all="ignore"):
                v = [int(a) for a in q] if T == "int" and what == "taus" else conv(q) if what == "rate" else q.astype(T)
            if not np.all(np.asarray(v, dtype=float) == q):
                continue
            got = go(v, taus if word == 0 else word) if what == "rate" else go(float(R), v)
            ok = equal(got, want, tol) and equal([np.round(np.asarray(o[0], dtype=float) * float(R)) for o in (got,)],
                                                 [np.round(np.asarray(o[0], dtype=float) * float(R)) for o in (want,)])
            ctx.check(ok and equal(got[3], want[3]), "number type", "%s with %s as %s differs" % (name, what, T), rate=R, taus=taus if word == 0 else word, got=got, want=want)
            ctx.obs("number types compared")
    ctx.say("%s N=%d rate=%g taus=%s", name, N, R, taus if word == 0 else word)
    ctx.note(name, x, R, tuple(taus))


def interleaved(ctx):
    """a history of calls: every result depends on its own arguments only"""
    js = jobs(ctx, 6, share=ctx.r.random() < .6)
    first = [run(ctx, j) for j in js]
    first_keep = [[np.array(v, copy=True) for v in flat(o)] for o in first]
    hist = []
    for _ in range(12):
        i = ctx.r.randrange(len(js))
        hist.append(i)
        o = run(ctx, js[i])
        ctx.check(equal(flat(o), first_keep[i]), "history", "%s differs after the calls %s" % (js[i][0], [js[h][0] for h in hist]),
                  now=o, first=first_keep[i])
        for v in _arrays(o):
            if v.flags.writeable and ctx.r.random() < .5 and v.dtype.kind == "f":
                v *= -3
        ctx.obs("interleaved results compared")
    for i, j in enumerate(js):
        ctx.check(equal(flat(first[i]), first_keep[i]), "history", "an earlier result of %s changed" % j[0])
        if j[0] in stat.STATS:
            x, k = np.asarray(j[2][0], dtype=float), j[3]
            ms = [int(round(float(t) * float(k["rate"]))) for t in first_keep[i][0]]
            stat.verify(ctx, j[0], x, k["rate"], k["data_type"], ms, k["taus"], first[i], tag=" (history)")
    ctx.say("history of %s", [j[0] for j in js])
    ctx.note("hist", *[v for j in js for v in j[2] if isinstance(v, np.ndarray)])


class Switcher:
    """forces thread switches inside library code: sleeps at random executed lines of it"""
    def __init__(self, rnd, p):
        self.rnd, self.p, self.count, self.pts = rnd, p, 0, set()

    def __enter__(self):
        m = sys.monitoring
        self.ok = False
        try:
            m.use_tool_id(m.PROFILER_ID, "verif-switch")
            pk = os.sep + "allantools" + os.sep

            def line(code, ln):
                if pk not in code.co_filename or "/tests/" in code.co_filename:
                    return m.DISABLE
                if self.rnd.random() < self.p:
                    self.count += 1
                    self.pts.add((code.co_name, ln))
                    time.sleep(0 if self.rnd.random() < .7 else 2e-5)
            m.register_callback(m.PROFILER_ID, m.events.LINE, line)
            m.set_events(m.PROFILER_ID, m.events.LINE)
            m.restart_events()
            self.ok = True
        except Exception:
            pass
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        return self

    def __exit__(self, *a):
        sys.setswitchinterval(self.old)
        if self.ok:
            m = sys.monitoring
            m.set_events(m.PROFILER_ID, 0)
            m.register_callback(m.PROFILER_ID, m.events.LINE, None)
            m.free_tool_id(m.PROFILER_ID)


def threads(ctx):
    """the same executions run concurrently with forced switches inside the library"""
    T = ctx.r.choice([2, 4, 6])
    same = ctx.r.random() < .5
    js = jobs(ctx, 6, lo=24, hi=80, share=True)
    want = [[np.array(v, copy=True) for v in flat(run(ctx, j))] for j in js]
    plans = []
    for t in range(T):
        p = [ctx.r.randrange(len(js)) for _ in range(5)]
        if same and plans:
            p = plans[0][:]
            if ctx.r.random() < .5:
                ctx.r.shuffle(p)
        plans.append(p)
    log, errors, lock = [], [], threading.Lock()
    start = threading.Barrier(T)

    def body(t):
        try:
            start.wait(20)
            for i in plans[t]:
                log.append((t, i, "b"))
                o = js[i][1](*js[i][2], **js[i][3])
                log.append((t, i, "e"))
                if not equal(flat(o), want[i]):
                    errors.append((t, js[i][0], short(o), short(want[i])))
        except BaseException as e:
            errors.append((t, "raised", repr(e), ""))
    with Switcher(ctx.r, 0.02) as sw:
        th = [threading.Thread(target=body, args=(t,)) for t in range(T)]
        for q in th:
            q.start()
        for q in th:
            q.join()
    ctx.say("%d threads, jobs %s, %d forced switches at %d places", T, [j[0] for j in js], sw.count, len(sw.pts))
    open_, over = {}, 0
    for t, i, k in list(log):
        if k == "b":
            over += len(open_)
            open_[t] = i
        else:
            open_.pop(t, None)
    ctx.obs("overlapping executions", over)
    ctx.obs("forced thread switches", sw.count)
    ctx.obs("thread results compared", sum(len(p) for p in plans))
    ctx.check(not errors, "threads", "results of concurrent executions differ: %s" % (errors[:3],))
    ctx.note("threads", tuple((t, i, k) for t, i, k in log))
    for p in sw.pts:
        ctx.note("switch point", p)


FAMILIES = [Family(pure, 2500, 60000), Family(inplace, 800, 16000), Family(containers, 1800, 40000), Family(converters, 500, 10000), Family(numbers, 600, 12000),
            Family(together, 700, 16000), Family(interleaved, 400, 10000), Family(threads, 160, 4000, timeout=120)]
