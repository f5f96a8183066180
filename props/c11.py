import math
import numpy as np
from mon import edf, gen, ref
from mon.core import Family, Skip

SCALE = 6      # quick-tier multiplier of the family counts
RULE = ("A case is one execution of gradev() on a record with a generated gap pattern; the monitor recomputes from the samples "
        "present which second differences are complete, their mean square, their number, and the chi-squared distances for the "
        "noise type and level. Non-trivial: distinct (record with gaps, factors) with at least one gap and one value.")
EVENTS = ["calls", "values compared", "values with gaps", "error bars compared", "refusals seen", "factors without two terms left out",
          "gap kind block", "gap kind periodic", "gap kind commensurate", "gap kind ends", "gap kind isolated", "gap kind sparse"]
ALPHA = {"wp": 2, "fp": 1, "wf": 0, "ff": -1, "rf": -2}
L = np.longdouble


def gaps(ctx, N, m):
    """boolean mask of missing samples"""
    r, g = ctx.r, ctx.rng
    kind = r.choice(["none", "isolated", "isolated", "block", "block", "blocks", "ends", "periodic", "commensurate", "random",
                     "random", "sparse", "onlyone"])
    miss = np.zeros(N, dtype=bool)
    if kind == "isolated":
        for _ in range(r.randint(1, 4)):
            miss[r.randrange(N)] = True
    elif kind in ("block", "blocks"):
        for _ in range(1 if kind == "block" else r.randint(2, 5)):
            a = r.randrange(N)
            miss[a:a + r.randint(1, max(1, N // r.choice([3, 5, 10, 2])))] = True
    elif kind == "ends":
        if r.random() < .7:
            miss[:r.randint(1, max(1, N // 3))] = True
        if r.random() < .7:
            miss[-r.randint(1, max(1, N // 3)):] = True
        if not miss.any():
            miss[r.choice([0, -1])] = True
    elif kind == "periodic":
        p = r.randint(2, max(2, min(20, N // 2)))
        miss[r.randrange(p)::p] = True
        if r.random() < .3:
            miss = ~miss
    elif kind == "commensurate":
        p = max(1, r.choice([m, 2 * m, m + 1, max(1, m - 1), 3 * m]))
        w = r.randint(1, max(1, p - 1))
        o = r.randrange(p)
        for s in range(o, N, p):
            miss[s:s + w] = True
        if r.random() < .3:
            miss = ~miss
    elif kind == "random":
        miss = g.random(N) < r.choice([.02, .1, .3, .6])
    elif kind == "sparse":
        miss = g.random(N) < .85
        keep = r.randrange(N)
        for s in (0, m, 2 * m, 3 * m):
            if keep + s < N:
                miss[keep + s] = False
    elif kind == "onlyone":
        miss[r.choice([0, N - 1, N // 2, m % N, (2 * m) % N])] = True
    return miss, kind


def verify(ctx, data, rate, dt, ms, out, ci, nt, tag=""):
    x = ref.ld(data) if dt == "phase" else ref.freq2phase(data, rate)
    N = len(x)
    present = int(np.sum(~np.isnan(x)))
    want, val = [], {}
    for m in sorted(set(ms)):
        if not 0 < m < N or N - 2 * m < 1:
            continue
        v = x[2 * m:] - 2 * x[m:N - m] + x[:N - 2 * m]
        v = v[~np.isnan(v)]
        if len(v) >= 2:
            want.append(m)
            val[m] = (np.sqrt(np.sum(v * v) / (2 * len(v))) * L(rate) / m, len(v))
        else:
            ctx.obs("factors without two terms left out")
    t, d, e, n = out
    ctx.check(isinstance(e, (list, tuple)) and len(e) == 2, "shape", "gradev returns two error arrays", out=out)
    t, d, lo, hi, n = [np.asarray(v, dtype=float) for v in (t, d, e[0], e[1], n)]
    ctx.check(t.ndim == 1 and t.shape == d.shape == lo.shape == hi.shape == n.shape, "shape", "gradev: arrays of unequal length",
              out=out)
    got = [int(round(v * float(rate))) for v in t]
    ctx.check(got == want, "factors", "gradev reported factors %s, expected %s (N=%d, present %d)%s" % (got, want, N, present, tag))
    ctx.nears(t, np.array(want) / float(rate), 1e-12 * t, "taus", "gradev averaging times")
    A = ref.amax(x)
    for i, m in enumerate(want):
        D, k = val[m]
        w = "gradev m=%d N=%d present=%d %s %s ci=%g%s" % (m, N, present, dt, nt, ci, tag)
        noise = 8 * ref.EPS * A * float(rate) / m
        if dt == "freq":
            noise += ref.freq_noise(np.asarray(data, dtype=float), rate, m) * float(rate) / m
        tol = 1e-9 * float(D) + noise + 1e-300
        ctx.near(d[i], D, tol, "value", w)
        ctx.check(n[i] == k, "count", "%s: n=%s, complete terms %d" % (w, n[i], k))
        ctx.obs("values compared")
        if present < N:
            ctx.obs("values with gaps")
        f = edf.simple(present, m, ALPHA.get(nt))
        if not (math.isfinite(f) and f > 1e-3):
            ctx.obs("degrees of freedom undefined for so few samples")
            continue
        a, b = edf.limits(float(D), f, ci)
        if not (math.isfinite(a) and math.isfinite(b)):
            continue
        tl = tol * 4 + 2e-7 * float(D)
        ctx.near(lo[i], float(D) - a, tl + 1e-7 * a, "error", w + " distance down (edf %.4g)" % f)
        ctx.near(hi[i], b - float(D), (tol * 4 + 1e-7 * b) * max(1, b / (float(D) + 1e-300)), "error", w + " distance up (edf %.4g)" % f)
        ctx.check(hi[i] >= -tl or ci < .5, "error", w + ": upper distance negative")
        ctx.obs("error bars compared", 2)
    return want


def case(ctx, big=False):
    r = ctx.r
    N = gen.length(ctx, 4, 300) if not big else gen.length(ctx, 1000, 30000, 1_200_000, .1)
    rate = gen.rate(ctx)
    x = gen.record(ctx, N)
    dt = "phase" if r.random() < .85 else "freq"
    ms = gen.factors(ctx, max(1, (N - 1) // 2), k=r.randint(1, 7))
    miss, kind = gaps(ctx, N, r.choice(ms))
    x = np.array(x)
    x[miss] = np.nan
    if dt == "freq" and np.all(np.isnan(x)):
        raise Skip()
    if np.all(np.isnan(x)) and dt == "phase":
        raise Skip()
    ci = r.choice([.9, .9, .5, .68, .95, .99, .999, .1, .01, 0.6826894921370859, r.uniform(.01, .99)])
    nt = r.choice(["wp", "fp", "wf", "ff", "rf", "xx"])
    kw = dict(rate=rate, data_type=dt, taus=gen.request(ctx, ms, rate))
    if not (ci == .9 and r.random() < .5):
        kw["ci"] = ci
    if not (nt == "wp" and r.random() < .5):
        kw["noisetype"] = nt
    ctx.say("gradev %s rate=%r ms=%s gaps %s %d of %d ci=%g %s", dt, rate, ms, kind, miss.sum(), N, ci, nt)
    ctx.obs("gap kind " + kind)
    arg = gen.container(ctx, x)
    p = ref.ld(x) if dt == "phase" else ref.freq2phase(x, rate)
    some = False
    for m in ms:
        if 0 < m and len(p) - 2 * m >= 1:
            v = p[2 * m:] - 2 * p[m:len(p) - m] + p[:len(p) - 2 * m]
            some |= int(np.sum(~np.isnan(v))) >= 2
    if not some:
        ctx.refuses("no-terms", "gradev without two complete terms", ctx.at.gradev, arg, **kw)
        return
    out = ctx.call(ctx.at.gradev, arg, **kw)
    want = verify(ctx, x, rate, dt, ms, out, ci, nt)
    if miss.any() and want:
        ctx.note("gradev", np.nan_to_num(x, nan=1.2345e99), tuple(want), rate, dt)


def large(ctx):
    case(ctx, big=True)


def keywords(ctx):
    """keyword requests: every factor with two complete terms, no other"""
    r = ctx.r
    N = gen.length(ctx, 4, 80) if r.random() < .9 else gen.length(ctx, 80, 1500)
    rate = gen.rate(ctx)
    x = np.array(gen.record(ctx, N))
    miss, kind = gaps(ctx, N, r.randint(1, max(1, N // 3)))
    x[miss] = np.nan
    req = r.choice(["all", "octave", None, "decade"])
    ms = {"all": list(range(1, N)), "octave": [2 ** k for k in range(20) if 2 ** k < N], None: [2 ** k for k in range(20) if 2 ** k < N],
          "decade": [q * 10 ** k for k in range(5) for q in (1, 2, 4) if q * 10 ** k < N]}[req]
    ctx.say("gradev taus=%s gaps %s", req, kind)
    some = any(np.sum(~np.isnan(x[2 * m:] - 2 * x[m:N - m] + x[:N - 2 * m])) >= 2 for m in ms if N - 2 * m >= 1)
    kw = dict(rate=rate)
    if req:
        kw["taus"] = req
    if not some:
        ctx.refuses("no-terms", "gradev without two complete terms", ctx.at.gradev, x, **kw)
        return
    out = ctx.call(ctx.at.gradev, x, **kw)
    verify(ctx, x, rate, "phase", ms, out, .9, "wp", tag=" taus=%s" % req)
    ctx.note("kw", np.nan_to_num(x, nan=1.2345e99), req)


def irrelevant(ctx):
    """samples in no complete term do not matter; a removed sample is worth as much as the terms it takes away"""
    r = ctx.r
    N = gen.length(ctx, 8, 200)
    rate = gen.rate(ctx)
    x = np.array(gen.record(ctx, N, kinds=gen.NOISY))
    m = r.randint(1, max(1, (N - 2) // 3))
    miss, kind = gaps(ctx, N, m)
    x[miss] = np.nan
    ok = ~np.isnan(x)
    full = ok[2 * m:] & ok[m:N - m] & ok[:N - 2 * m]
    used = np.zeros(N, dtype=bool)
    for s in (0, m, 2 * m):
        used[s:s + N - 2 * m] |= full
    if full.sum() < 2:
        raise Skip()
    y = x.copy()
    free = np.nonzero(ok & ~used)[0]
    y[free] += 1e3 * (np.nanmax(np.abs(x)) or 1)
    ctx.say("gradev m=%d gaps %s, %d unused samples changed", m, kind, len(free))
    a = ctx.call(ctx.at.gradev, x, rate=rate, taus=[m / float(rate)])
    b = ctx.call(ctx.at.gradev, y, rate=rate, taus=[m / float(rate)])
    ctx.near(b[1][0], a[1][0], 1e-9 * a[1][0] + 1e-300, "irrelevant", "gradev changes with samples in no complete term")
    ctx.check(a[3][0] == b[3][0] == full.sum(), "irrelevant", "n changes")
    ctx.obs("values compared")
    if len(free):
        ctx.note("irr", np.nan_to_num(x, nan=1.2345e99), m)


FAMILIES = [Family(case, 9000, 200000), Family(large, 300, 6000, timeout=120), Family(keywords, 1200, 20000), Family(irrelevant, 1500, 20000)]
