import math
import numpy as np
from mon import gen, ref, stat
from mon.core import Family, Skip
from props.c05 import SLOW

SCALE = 4      # quick-tier multiplier of the family counts
RULE = ("A case is a group of executions of gcodev() or three_cornered_hat_phase() on generated pairs or triples of records, with "
        "monitors recomputing the covariance of second differences or the variance algebra and checking symmetry, polarisation, "
        "Cauchy-Schwarz and recovery of simulated clocks. Non-trivial: distinct record groups.")
EVENTS = ["calls", "codeviations compared", "negative covariances", "hats compared", "hats clipped at zero", "clocks recovered",
          "refusals seen"]
L = np.longdouble


def pair(ctx, N):
    r = ctx.r
    a = gen.record(ctx, N)
    u = r.random()
    if u < .35:
        b = gen._kind(ctx, N, r.choice(gen.NOISY)) * (np.ptp(a) or 1)
    elif u < .5:
        b = a.copy()
    elif u < .6:
        b = -a * r.uniform(.1, 3)
    elif u < .85:
        b = r.uniform(-2, 2) * a + gen._kind(ctx, N, "white") * (np.ptp(a) or 1) * r.choice([.01, .3, 1])
    else:
        b = gen.record(ctx, N)
    return a, np.asarray(b)


def d2(x, m):
    return x[2 * m:] - 2 * x[m:len(x) - m] + x[:len(x) - 2 * m]


def codev(ctx, big=False):
    r, at = ctx.r, ctx.at
    N = gen.length(ctx, 5, 1500) if not big else gen.length(ctx, 3000, 60000, 1_200_000, .1)
    rate = gen.rate(ctx)
    a, b = pair(ctx, N)
    dt = r.choice(["phase", "phase", "freq"])
    top = (N + (dt == "freq") - 2) // 2
    ms = gen.factors(ctx, top, k=5)
    extra = r.sample([N, 3 * N, top + 1], 2) if r.random() < .3 else []
    taus = gen.request(ctx, ms + extra, rate)
    ctx.say("gcodev %s rate=%r ms=%s", dt, rate, ms)
    kw = dict(rate=rate, data_type=dt, taus=taus)
    out = ctx.call(at.gcodev, gen.container(ctx, a), gen.container(ctx, b), **kw)
    swapped = ctx.call(at.gcodev, b, a, **kw)
    x, y = (ref.ld(a), ref.ld(b)) if dt == "phase" else (ref.freq2phase(a, rate), ref.freq2phase(b, rate))
    t, d, e, n = [np.asarray(v) for v in out]
    ctx.check(t.shape == d.shape == e.shape == n.shape and t.ndim == 1, "shape", "gcodev arrays differ in length")
    ctx.check([int(round(float(v) * float(rate))) for v in t] == ms, "factors", "gcodev factors %s, expected %s" % (t * float(rate), ms))
    ctx.nears(t, np.array(ms) / float(rate), 1e-12 * np.abs(t), "taus", "gcodev averaging times")
    oa = ctx.call(at.oadev, a, **kw)
    ob = ctx.call(at.oadev, b, **kw)
    for i, m in enumerate(ms):
        u, v = d2(x, m), d2(y, m)
        k = len(u)
        s = np.sum(u * v)
        sc = L(rate) / m
        D = np.sqrt(abs(s) / (2 * k)) * sc
        # rounding of the sum in terms of the product of the two deviations
        ra, rb = float(np.sqrt(np.sum(u * u) / (2 * k)) * sc), float(np.sqrt(np.sum(v * v) / (2 * k)) * sc)
        na, nb = 8 * ref.EPS * ref.amax(x) * float(sc), 8 * ref.EPS * ref.amax(y) * float(sc)
        if dt == "freq":
            na += ref.freq_noise(a, rate, m) * float(sc)
            nb += ref.freq_noise(b, rate, m) * float(sc)
        dv = ra * nb + rb * na + na * nb + 64 * k * ref.EPS * ra * rb      # absolute error of the variance
        tol = dv / float(D) if float(D) ** 2 > 4 * dv else 3 * math.sqrt(dv)
        tol += 1e-9 * float(D) + 1e-300
        w = "gcodev m=%d N=%d %s" % (m, N, dt)
        ctx.near(abs(d[i]), D, tol, "value", w)
        ctx.check(n[i] == k, "count", "%s n=%s, expected %d" % (w, n[i], k))
        ctx.near(e[i], D / np.sqrt(L(k)), tol / math.sqrt(k) + 1e-12 * float(D), "error", w + " error bar") if abs(d[i]) == d[i] else None
        ctx.near(swapped[1][i], d[i], tol * 1e-3 + 1e-12 * abs(d[i]), "symmetry", w + " with arguments exchanged")
        ctx.check(abs(d[i]) <= math.sqrt(oa[1][i] * ob[1][i]) * (1 + 1e-9) + 3 * math.sqrt(dv) + 1e-300, "schwarz",
                  "%s: %g above the geometric mean of %g and %g" % (w, d[i], oa[1][i], ob[1][i]))
        if np.array_equal(a, b):
            ctx.near(d[i], oa[1][i], 2 * na + 1e-10 * oa[1][i] + 1e-300, "identical", w + " of a record with itself")
        if float(s) < 0:
            ctx.obs("negative covariances")
        ctx.obs("codeviations compared")
    ctx.note("co", a, b, tuple(ms), rate)


def polar(ctx):
    """|cov| from the polarisation identity with the library's own Allan deviations"""
    r, at = ctx.r, ctx.at
    N = gen.length(ctx, 10, 1000)
    rate = gen.rate(ctx)
    a = gen._kind(ctx, N, r.choice(["white", "rwalk", "sine", "step"]))
    b = r.uniform(-1.5, 1.5) * a + gen._kind(ctx, N, "white")
    ms = gen.factors(ctx, (N - 2) // 2, k=4)
    kw = dict(rate=rate, taus=np.array(ms) / float(rate))
    g = ctx.call(at.gcodev, a, b, **kw)
    p, q = ctx.call(at.oadev, a + b, **kw), ctx.call(at.oadev, a - b, **kw)
    cov = (p[1] ** 2 - q[1] ** 2) / 4
    ctx.say("polarisation N=%d ms=%s", N, ms)
    sc = p[1] ** 2 + q[1] ** 2
    ctx.nears(g[1] ** 2, np.abs(cov), 1e-9 * sc + 1e-7 * (float(rate) / np.array(ms)) ** 2 * ref.EPS, "polarisation", "gcodev^2 against Allan variances of sum and difference")
    c = r.choice([-3, .5, 7.])
    g2 = ctx.call(at.gcodev, c * a, b, **kw)
    ctx.nears(np.abs(g2[1]), math.sqrt(abs(c)) * np.abs(g[1]), 1e-6 * np.sqrt(sc), "bilinear", "gcodev of a scaled record")
    ctx.obs("codeviations compared", len(ms))
    ctx.note("po", a, b)


FUN = ["oadev", "adev", "mdev", "tdev", "hdev", "ohdev", "totdev", "pdev", "mtotdev", "theo1", "htotdev", "ttotdev", "mtie", "tierms"]


def hat(ctx):
    r, at = ctx.r, ctx.at
    name = r.choice(FUN + ["oadev"] * 4)
    N = gen.length(ctx, 12, SLOW.get(name, 500))
    rate = gen.rate(ctx)
    s = r.choice(gen.SCALES)
    A, B, C = [gen._kind(ctx, N, r.choice(gen.NOISY)) * s * r.choice([1, 1, .1, 10]) for _ in range(3)]
    if r.random() < .7:
        ab, bc, ca = A - B, B - C, C - A
    else:
        ab, bc, ca = A, B, C         # not a closed triple: clipping likely
    ms = gen.factors(ctx, stat.mmax(name, N), k=3 if name in SLOW else 5)
    if name == "theo1":
        ms = sorted(set(max(2, m - m % 2) for m in ms))
    taus = np.array(ms) / float(rate) if r.random() < .7 else r.choice(["octave", "all" if N < 60 else "decade"])
    f = getattr(at, name)
    calls = []

    def spy(*a, **k):
        calls.append((a, k))
        return f(*a, **k)
    ctx.say("three-cornered hat with %s N=%d taus=%s", name, N, taus)
    fun = spy if r.random() < .3 else f
    t, d, err, cnt = ctx.call(at.three_cornered_hat_phase, ab, bc, ca, rate, taus, fun)
    d2_ = ctx.call(at.three_cornered_hat_phase, ca, bc, ab, rate, taus, f)[1]
    R = [ctx.call(f, v, data_type="phase", rate=rate, taus=taus) for v in (ab, bc, ca)]
    ctx.check(np.array_equal(np.asarray(t), R[0][0]) and np.asarray(d).shape == np.asarray(t).shape, "taus", "hat averaging times")
    vab, vbc, vca = [np.asarray(v[1], dtype=L) ** 2 for v in R]
    want = (vab + vca - vbc) / 2
    clip = np.where(want < 0, L(0), want)
    dv = 8 * ref.EPS * np.asarray(vab + vbc + vca, dtype=float) + 1e-300
    tol = np.where(np.asarray(clip, dtype=float) > 4 * dv, dv / np.sqrt(np.maximum(np.asarray(clip, dtype=float), dv)), 3 * np.sqrt(dv)) + 1e-10 * np.sqrt(np.asarray(clip, dtype=float))
    ctx.nears(np.asarray(d, dtype=float), np.asarray(np.sqrt(clip), dtype=float), tol, "hat", "three-cornered hat with " + name)
    ctx.nears(d, d2_, tol, "hat-symmetry", "hat with AB and CA exchanged")
    ctx.check(np.array_equal(np.asarray(cnt), R[0][3]), "count", "hat number of terms", got=cnt, want=R[0][3])
    ctx.nears(np.asarray(err, dtype=float), np.asarray(d) / np.sqrt(np.asarray(cnt)), 1e-9 * np.asarray(d) + 1e-300, "error", "hat error bars")
    if np.any(want < -dv):
        ctx.obs("hats clipped at zero", int(np.sum(want < -dv)))
    ctx.obs("hats compared", len(t))
    ctx.note("hat", ab, bc, ca, name)


def clocks(ctx):
    """three independent simulated clocks: both methods recover each clock's own deviation"""
    r, at = ctx.r, ctx.at
    N = r.choice([4000, 8001, 16384])
    rate = gen.rate(ctx)
    lev = r.choice([(1, 1, 1), (2, 1, 1), (3, 1, 2), (1, .7, 1.3)])
    g = ctx.rng
    kind = r.choice(["wpm", "wfm"])
    X = []
    for q in lev:
        w = g.standard_normal(N) * q / float(rate)
        X.append(w if kind == "wpm" else np.cumsum(w))
    A, B, C = X
    ms = [1, 2, r.choice([3, 4, 5, 8])]
    taus = np.array(ms) / float(rate)
    ctx.say("clocks %s N=%d %s ms=%s", lev, N, kind, ms)
    name = r.choice(["oadev", "mdev", "ohdev", "totdev"])
    f = getattr(at, name)
    own = [ctx.call(f, v, rate=rate, taus=taus)[1] for v in X]
    _, ha, _, _ = ctx.call(at.three_cornered_hat_phase, A - B, B - C, C - A, rate, taus, f)
    _, hb, _, _ = ctx.call(at.three_cornered_hat_phase, B - C, C - A, A - B, rate, taus, f)
    _, hc, _, _ = ctx.call(at.three_cornered_hat_phase, C - A, A - B, B - C, rate, taus, f)
    o2 = [ctx.call(at.oadev, v, rate=rate, taus=taus)[1] for v in X]
    gb = ctx.call(at.gcodev, A - B, B - C, rate=rate, taus=taus)[1]
    ga = ctx.call(at.gcodev, C - A, A - B, rate=rate, taus=taus)[1]
    gc = ctx.call(at.gcodev, B - C, C - A, rate=rate, taus=taus)[1]
    for i, m in enumerate(ms):
        for h, q in zip((ha, hb, hc), range(3)):
            # cross terms: three covariances of independent records, each ~ product of deviations / sqrt(effective terms)
            neff = N / (3.0 * m)
            cross = (own[q][i] * own[(q + 1) % 3][i] + own[q][i] * own[(q + 2) % 3][i] + own[(q + 1) % 3][i] * own[(q + 2) % 3][i])
            ctx.near(h[i] ** 2, own[q][i] ** 2, 7 * cross / math.sqrt(neff), "recovery", "hat (%s) of clock %d m=%d" % (name, q, m))
            ctx.obs("clocks recovered")
        for h, q in zip((ga, gb, gc), range(3)):
            neff = N / (3.0 * m)
            cross = (o2[q][i] * o2[(q + 1) % 3][i] + o2[q][i] * o2[(q + 2) % 3][i] + o2[(q + 1) % 3][i] * o2[(q + 2) % 3][i])
            ctx.near(h[i] ** 2, o2[q][i] ** 2, 7 * cross / math.sqrt(neff), "recovery", "codeviation of clock %d m=%d" % (q, m))
            ctx.obs("clocks recovered")
    ctx.note("cl", A, B, C)


def large(ctx):
    codev(ctx, big=True)


def mismatch(ctx):
    """records of different length are not silently compared"""
    N = gen.length(ctx, 8, 300)
    a = gen._kind(ctx, N, "white")
    k = ctx.r.choice([1, 2, N // 2, 5])
    b = gen._kind(ctx, max(3, N - k), "white")
    rate = gen.rate(ctx)
    p, q = (a, b) if ctx.r.random() < .5 else (b, a)
    ctx.refuses("length", "gcodev of records of %d and %d samples" % (len(p), len(q)), ctx.at.gcodev, p, q, rate=rate,
                taus=[1 / float(rate)])
    ctx.note("mm", a, b)


FAMILIES = [Family(codev, 4000, 100000), Family(polar, 1500, 30000), Family(hat, 2500, 60000), Family(clocks, 250, 4000),
            Family(large, 150, 3000, timeout=120), Family(mismatch, 300, 3000)]
