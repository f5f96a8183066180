import math
import numpy as np
from mon import forms, gen, ref, stat
from mon.core import Family, Skip

L = np.longdouble
SCALE = 10      # quick-tier multiplier of the family counts
RULE = ("A case is one request for averaging times (keyword, or a hostile list/array: unsorted, duplicated, zero, negative, "
        "oversized, off-grid values) to one statistic, to tau_generator or to tau_reduction, compared with an independent "
        "selection oracle; every returned element is also checked against the reference value of its own averaging time. "
        "Non-trivial: distinct (statistic, request, length, rate) with at least one averaging time returned.")
EVENTS = ["calls", "averaging times compared", "keyword requests", "hostile requests", "half-way requests"]
NAMES = list(stat.STATS) + ["gradev", "gcodev"]
SLOW = {"pdev": 70, "theo1": 90, "mtotdev": 50, "ttotdev": 50, "htotdev": 50, "mtie": 600}


def nterms(name, N, m):
    if name in ("gradev", "gcodev"):
        return N - 2 * m
    return stat.STATS[name][1](N, m) if stat._cap(name, N, m) else 0


def keyword_sets(word, n):
    """acceptable factor sets of a keyword for a record of n samples (several where rounding is ambiguous)"""
    if word == "all":
        return [list(range(1, n + 1))]
    if word in ("octave", None, "empty"):
        return [[2 ** k for k in range(0, 40) if 2 ** k <= n]]
    if word == "decade":
        return [[a * 10 ** k for k in range(0, 12) if 10 ** k <= n for a in (1, 2, 4)]]
    if word == "log10":
        mx = math.log10(n)
        out = []
        for K in sorted(set([int(10 * mx), int(10 * mx - 1e-9), int(10 * mx + 1e-9)])):
            if K <= 0:
                out.append([])
                continue
            v = [10 ** (i * mx / (K - 1)) for i in range(K)] if K > 1 else [1.0]
            out.append(sorted(set(int(math.floor(a + .5)) for a in v)))
            # a value within rounding of a half may go either way
        return out
    raise KeyError(word)


def filter_(name, N, ms):
    return [m for m in sorted(set(ms)) if 0 < m < N and nterms(name, N, m) > 1 and (name != "theo1" or m % 2 == 0)]


def hostile(ctx, N, rate, sparse=False):
    """a request with every kind of junk and its exact set of nearest averaging factors"""
    r = ctx.r
    vals = []
    k = r.randint(1, 8) if sparse else r.randint(1, 25)
    for _ in range(k):
        u = r.random()
        m = int(round(math.exp(r.uniform(0, math.log(1.3 * N)))))
        if u < .45:
            v = m
        elif u < .6:
            v = m + r.uniform(-.45, .45)
        elif u < .66:
            v = r.uniform(0.02, 0.48)
        elif u < .72:
            v = 0.0
        elif u < .79:
            v = -float(m)
        elif u < .84:
            v = r.choice([N - 1, N, N + 1, 2 * N, 1000 * N])
        elif u < .92 and vals:
            v = r.choice(vals)
        else:
            v = r.choice([N / 2, (N - 1) / 2, N / 3, N / 4, N - 2, (N - 1) // 3, (N - 1) // 4])
            if abs(v - math.floor(v) - .5) < .05:
                v += .2
        vals.append(v)
    taus = [float(v) / float(rate) for v in vals]
    q = [float(L(t) * L(float(rate))) for t in taus]
    for a in q:
        if abs(a - math.floor(a) - .5) < 1e-6:
            raise Skip()
    ms = [int(math.floor(a + .5)) for a in q]
    return taus, ms


def values(ctx, name, x, rate, dt, out, want):
    """shape, grid and element-by-element ownership of what a statistic returned"""
    t, d, e, n = out
    t, d, n = np.asarray(t), np.asarray(d), np.asarray(n)
    es = [np.asarray(v) for v in e] if name == "gradev" else [np.asarray(e)]
    ctx.check(t.ndim == 1 and all(v.shape == t.shape for v in [d, n] + es), "shape", name + ": unequal array lengths")
    got = [int(round(float(v) * float(rate))) for v in t]
    ctx.check(got == want, "selection", "%s: factors %s, expected %s (N=%d)" % (name, got[:60], want[:60], len(x)),
              missing=sorted(set(want) - set(got))[:20], extra=sorted(set(got) - set(want))[:20])
    ctx.nears(t, np.array(want) / float(rate), 4 * ref.EPS * np.array(want) / float(rate), "grid", name + " taus = factor/rate")
    ctx.obs("averaging times compared", len(got))


def call(ctx, name, x, rate, dt, taus):
    f = getattr(ctx.at, name)
    a, k = forms.form(ctx.rf, f, (x, x[::-1].copy()) if name == "gcodev" else (x,), dict(rate=rate, data_type=dt, taus=taus))
    return lambda: f(*a, **k)


def check_one(ctx, name, x, rate, dt, taus, wants, label):
    N = len(x) + (dt == "freq")
    alts = [filter_(name, N, w) for w in wants]
    if not any(alts):
        ctx.refuses("refuse", "%s with no usable averaging time (%s)" % (name, label), call(ctx, name, x, rate, dt, taus))
        return
    out = ctx.call(call(ctx, name, x, rate, dt, taus))
    got = [int(round(float(v) * float(rate))) for v in out[0]]
    want = got if got in alts else alts[0]
    values(ctx, name, x, rate, dt, out, want)
    if name in stat.STATS and want:
        stat.verify(ctx, name, x, rate, dt, want, taus, out, tag=" request " + label)
    elif want:
        p = ref.ld(x) if dt == "phase" else ref.freq2phase(x, rate)
        P = (ref.amax(p) * float(rate) + (ref.amax(x) if dt == "freq" else 0))
        for i, m in enumerate(want):
            if name == "gradev":
                D, n, nz = ref.oadev(p, rate, m)
                ctx.near(out[1][i], D, 1e-9 * float(D) + 64 * ref.EPS * P / m + 64 * ref.EPS * P * (dt == "freq"), "value", "gradev m=%d" % m)
            ctx.check(out[3][i] == N - 2 * m, "count", "%s m=%d n" % (name, m))
    ctx.note(name, label, N, float(rate), tuple(want))


def keywords(ctx):
    name = NAMES[ctx.idx % len(NAMES)]
    word = ["all", "octave", "decade", "log10", None, "empty"][(ctx.idx // len(NAMES)) % 6]
    N = gen.length(ctx, 4, SLOW.get(name, 3000 if word != "all" else 250))
    if word == "all":
        N = min(N, 40 if name in SLOW and name != "mtie" else 300)
    x = gen.record(ctx, N, kinds=gen.NOISY)
    rate = gen.rate(ctx)
    dt = "freq" if ctx.r.random() < .25 else "phase"
    Np = N + (dt == "freq")
    n = N if name == "htotdev" and dt == "freq" else (N - 1 if name == "htotdev" else Np)   # htotdev selects on frequency samples
    ctx.say("%s %s keyword %r", name, dt, word)
    sets = keyword_sets(word, n)
    if name == "htotdev":
        sets = [[m for m in s if m < n] for s in sets]
    ctx.obs("keyword requests")
    check_one(ctx, name, x, rate, dt, {"empty": []}.get(word, word) if word != "empty" else [], sets, "keyword %r" % word)


def lists(ctx):
    name = NAMES[ctx.idx % len(NAMES)]
    slow = name in SLOW and name != "mtie"
    N = gen.length(ctx, 4, SLOW.get(name, 2500))
    x = gen.record(ctx, N, kinds=gen.NOISY)
    rate = gen.rate(ctx)
    dt = "freq" if ctx.r.random() < .25 else "phase"
    taus, ms = hostile(ctx, N, rate, slow)
    form = ctx.r.choice(["list", "array", "array", "strided"])
    t = taus if form == "list" else np.array(taus)
    if form == "strided":
        z = np.zeros(2 * len(taus))
        z[::2] = taus
        t = z[::2]
    if float(rate) == 1.0 and ctx.r.random() < .4:
        t = [int(m) for m in ms] if ctx.r.random() < .5 else np.array(ms)
        form += "-int"
    ctx.say("%s %s %s request m=%s", name, dt, form, ms)
    ctx.obs("hostile requests")
    check_one(ctx, name, x, rate, dt, t, [ms], "%s m=%s" % (form, ms))


def generator(ctx):
    """tau_generator itself, all arguments"""
    N = gen.length(ctx, 2, 200000)
    x = ctx.rng.standard_normal(N)
    rate = gen.rate(ctx)
    even = ctx.r.random() < .3
    cap = ctx.r.choice([-1, -1, max(1, N // 3), N / 3.0, N // 2])
    word = ctx.r.choice(["all", "octave", "decade", "log10", None, "list", "list"])
    v = ctx.r.random() < .3
    if word == "list":
        taus, ms = hostile(ctx, N, rate)
        taus = np.array(taus) if ctx.r.random() < .5 else taus
        sets = [ms]
    else:
        taus, sets = word, keyword_sets(word, N)
    ctx.say("tau_generator N=%d rate=%r %r even=%s maximum_m=%s verbose=%s", N, rate, word, even, cap, v)
    alts = []
    for s in sets:
        alts.append([a for a in sorted(set(s)) if 0 < a < N and (cap == -1 or a <= cap) and not (even and a % 2)])
    if not any(alts):         # nothing usable: an empty answer here or an error
        try:
            data, m, t = ctx.at.tau_generator(x, rate, taus=taus, v=v, even=even, maximum_m=cap)
        except (Exception, UserWarning):
            ctx.note("tg", word, N, "refused")
            return
    else:
        data, m, t = ctx.call(ctx.at.tau_generator, x, rate, taus=taus, v=v, even=even, maximum_m=cap)
    got = [int(a) for a in m]
    ctx.check(np.all(np.asarray(m) == got), "integers", "non-integer factors", m=m)
    ctx.check(got in alts, "selection", "tau_generator factors %s, expected %s" % (got[:50], alts[0][:50]),
              missing=sorted(set(alts[0]) - set(got))[:20], extra=sorted(set(got) - set(alts[0]))[:20])
    ctx.nears(t, np.array(got) / float(rate), 4 * ref.EPS * np.array(got) / float(rate), "grid", "taus = m/rate")
    ctx.check(np.array_equal(data, x), "data", "tau_generator changes the data")
    ctx.obs("averaging times compared", len(got))
    ctx.note("tg", word, N, float(rate), tuple(got[:50]), even, cap)


def halves(ctx):
    """requests half-way between two factors: either neighbour, but exactly one and never none"""
    r = ctx.r
    N = gen.length(ctx, 6, 20000)
    x = ctx.rng.standard_normal(N)
    rate = r.choice([1, 1.0, 2.0, 0.5, 4.0, 1024.0, gen.rate(ctx)])
    k = r.choice([1, 1, 2, 5, 20])
    lo = [int(round(math.exp(r.uniform(0, math.log(N - 2))))) for _ in range(k)]
    lo = sorted({v - v % 2 for v in lo})          # intervals [v, v+1] that do not touch
    lo = [v for v in lo if 1 <= v < N - 1]
    if not lo:
        raise Skip()
    req = [(v + .5) / float(rate) for v in lo]
    r.shuffle(req)
    v = r.random() < .3
    ctx.say("tau_generator N=%d rate=%r half-way requests %s", N, rate, lo)
    _, m, t = ctx.call(ctx.at.tau_generator, x, rate, taus=np.array(req) if r.random() < .5 else req, v=v)
    got = [int(a) for a in m]
    ctx.check([a - a % 2 for a in got] == lo, "selection", "half-way requests between %s and the next: factors %s" % (lo[:50], got[:50]))
    ctx.nears(t, np.array(got) / float(rate), 4 * ref.EPS * np.array(got) / float(rate), "grid", "taus = m/rate")
    ctx.obs("averaging times compared", len(got))
    ctx.obs("half-way requests")
    ctx.note("half", N, float(rate), tuple(got[:50]))


def reduction(ctx):
    N = gen.length(ctx, 2, 100000)
    npd = ctx.r.choice([1, 2, 3, 4, 5, 10, 20, 30, 50, 100, 7])
    rate = gen.rate(ctx)
    first = ctx.r.choice([1, 1, 1, 2, 10, 37])
    ms = np.arange(first, N + first + 1)
    form = ctx.r.choice([ms, ms.astype(float), list(ms), ms.astype(np.int32)])
    ctx.say("tau_reduction %d..%d, %d per decade", first, N + first, npd)
    a, t = ctx.call(ctx.at.tau_reduction, form, rate, npd)
    a = np.asarray(a)
    ctx.check(a.shape == np.asarray(t).shape, "shape", "lengths differ")
    ctx.check(np.all(np.diff(a) > 0) and np.all((a >= ms[0]) & (a <= ms[-1])), "subset", "not an increasing subset", a=a)
    ctx.nears(t, a / float(rate), 4 * ref.EPS * a / float(rate), "grid", "taus = m/rate")
    for k in range(0, 6):
        lo, hi = 10 ** k, 10 ** (k + 1)
        c = int(np.sum((a >= lo) & (a < hi)))
        ctx.check(c <= npd, "density", "%d factors kept in [%d,%d), at most %d per decade allowed" % (c, lo, hi, npd))
        if lo >= 5 * npd and ms[0] <= lo and hi * 10 ** (1.0 / npd) < ms[-1]:
            ctx.check(c >= npd - 1, "density", "only %d factors kept in [%d,%d), %d per decade wanted" % (c, lo, hi, npd))
    ctx.obs("averaging times compared", len(a))
    ctx.note("red", first, N, npd)


FAMILIES = [Family(keywords, 96 * 12, 96 * 200), Family(lists, 2400, 60000), Family(generator, 1500, 40000), Family(halves, 300, 6000), Family(reduction, 600, 8000)]
