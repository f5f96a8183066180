import math
import numpy as np
from mon import gen, idref, ref
from mon.core import Family, Skip

SCALE = 6      # quick-tier multiplier of the family counts
RULE = ("A case is one or more executions of the noise-identification functions on generated power-law or other records; monitors "
        "recompute the published lag-1 recursion in extended precision, compare identified exponents with those of the generating "
        "noise, compare executions on trended and rescaled records, and recompute the variance ratios and their theory. "
        "Non-trivial: distinct (record, averaging factor, data type, options).")
EVENTS = ["calls", "identifications compared", "noises identified", "trends compared", "ratios compared", "theory values compared",
          "refusals seen"] + ["identified %d" % a for a in (2, 1, 0, -1, -2)]


def record(ctx, n):
    """some record of n samples, noisy enough for its lag-1 autocorrelation to be defined"""
    r = ctx.r
    if r.random() < .7:
        a = r.choice([2, 1, 0, -1, -2])
        x = idref.powerlaw(ctx, n, a)
        d = "alpha=%d" % a
    else:
        d = r.choice(["white", "rwalk", "sine", "step", "outlier", "drift+noise", "ramp+noise", "rwfm"])
        x = gen._kind(ctx, n, d)
    s = r.choice(gen.SCALES)
    return x * s, d


def recursion(ctx):
    """alpha_int, alpha, d, rho against the reference recursion"""
    r, at = ctx.r, ctx.at
    dt = r.choice(["phase", "freq"])
    af = r.choice([1, 1, 2, 3, 4, 5, 7, 10, 16])
    N = max(gen.length(ctx, 30, 3000, 1_100_000), 30 * af + r.randrange(af))
    x, d = record(ctx, N)
    dmin, dmax = r.choice([(0, 2), (0, 2), (0, 3), (1, 2), (0, 1), (2, 2), (1, 3), (0, 0)])
    kw = dict(data_type=dt)
    if (dmin, dmax) != (0, 2) or r.random() < .3:
        kw.update(dmin=dmin, dmax=dmax)
    if dt == "phase" and r.random() < .3:
        kw.pop("data_type")
    M = len(x[::af]) if dt == "phase" else len(x) // af
    if M < 30:
        raise Skip()
    w = idref.identify(x, af, dt, dmin, dmax)
    # conditioning of the detrended record
    res = float(np.std(np.asarray(idref.reduce(x, af, dt), dtype=float)))
    c = ref.EPS * ref.amax(x) / (res + 1e-300)
    if c > 1e-7:
        raise Skip()
    ctx.say("autocorr_noise_id %s af=%d N=%d %s dmin=%d dmax=%d -> %s", dt, af, N, d, dmin, dmax, w[:4])
    arg = gen.container(ctx, x)
    out = ctx.call(at.autocorr_noise_id, arg, af, **kw)
    ctx.check(len(out) == 4, "shape", "autocorr_noise_id returns four values", out=out)
    g_int, g, gd, grho = out
    near = 1e-6 + c * 1e5
    tol = (1e-8 + c * 1e4) * 100
    rho = float(w[3])
    amp = 1 / max(1e-6, (1 - rho)) ** 0 + (1 + abs(rho)) ** 2
    if w[4] < near:
        ctx.obs("decisions too close to call")
        return
    ctx.check(int(gd) == w[2], "d", "%s: %d differencings, expected %d" % (ctx.desc[-1], gd, w[2]))
    ctx.near(float(grho), rho, tol * amp, "rho", ctx.desc[-1] + ": rho")
    ctx.near(float(g), w[1], 2 * tol * amp, "alpha", ctx.desc[-1] + ": alpha")
    ctx.check(g_int == w[0] and int(g_int) == g_int, "alpha_int", "%s: integer exponent %r, expected %d" % (ctx.desc[-1], g_int, w[0]))
    ctx.check(abs(g_int - g) <= .5 + 1e-9, "consistent", "integer estimate %r is not the rounded %r" % (g_int, g))
    ctx.obs("identifications compared")
    ctx.note("rec", x, af, dt, dmin, dmax)


def identify(ctx):
    """the exponent of simulated power-law noise"""
    r, at = ctx.r, ctx.at
    alpha = [2, 1, 0, -1, -2][ctx.idx % 5]
    dt = ["phase", "freq"][(ctx.idx // 5) % 2]
    af = r.choice([1, 2, 3, 4, 5, 8, 10, 20])
    n = r.choice([500, 600, 800])
    flicker = alpha in (1, -1)
    K = 8
    ints, fl = [], []
    scale = r.choice(gen.SCALES)
    N = n * af + r.randrange(af)
    for _ in range(K):
        x = idref.powerlaw(ctx, N + 1, alpha) * scale
        if dt == "phase":
            x = x[:N]
            if r.random() < .5:
                t = np.arange(N) / N
                x = x + np.std(x) * (r.uniform(-30, 30) + r.uniform(-30, 30) * t + r.uniform(-30, 30) * t * t)
        else:
            x = np.diff(x)
            if r.random() < .5:
                x = x + np.std(x) * (r.uniform(-30, 30) + r.uniform(-30, 30) * np.arange(N) / N)
        o = ctx.call(at.autocorr_noise_id, x, af, data_type=dt)
        ints.append(int(o[0]))
        fl.append(float(o[1]))
        ctx.obs("noises identified")
        ctx.obs("identified %d" % int(o[0]))
    ctx.say("noise alpha=%d %s af=%d n=%d: %s", alpha, dt, af, n, ints)
    w = "noise alpha=%d, %s data, af=%d, %d points: identified %s (%s)" % (alpha, dt, af, n, ints, np.round(fl, 2))
    good = sum(i == alpha for i in ints)
    if flicker and af > 2:
        ctx.check(all(abs(i - alpha) <= 1 for i in ints), "identified", w)
        ctx.check(abs(np.mean(fl) - alpha) < .8, "identified", w)
    else:
        ctx.check(good >= K // 2 and all(abs(i - alpha) <= 1 for i in ints), "identified", w)
        ctx.check(abs(np.mean(fl) - alpha) < (.75 if alpha == -2 else .5 if flicker else .35 if dt == "phase" or alpha != 2 else .5), "identified", w)
    ctx.note("noise", alpha, dt, af, n, ctx.idx)


def trends(ctx):
    """scaling, offset and trend up to drift leave the identification alone"""
    r, at = ctx.r, ctx.at
    dt = r.choice(["phase", "freq"])
    af = r.choice([1, 1, 2, 3, 5, 10])
    N = max(gen.length(ctx, 40, 1500), 31 * af)
    x = idref.powerlaw(ctx, N, r.choice([2, 1, 0, -1]))
    t = np.arange(N) / float(N)
    y = x * r.choice([1, -1, 1e-9, 1e6, 3.3])
    s = np.std(y) * r.choice([1, 30, 1000])
    y = y + s * r.uniform(-1, 1)
    if r.random() < .8:
        y = y + s * r.uniform(-1, 1) * t
    if dt == "phase" and r.random() < .8:
        y = y + s * r.uniform(-1, 1) * t * t
    w = idref.identify(x, af, dt)
    if w[4] < 1e-5:
        raise Skip()
    ctx.say("trend %s af=%d N=%d", dt, af, N)
    a = ctx.call(at.autocorr_noise_id, x, af, data_type=dt)
    b = ctx.call(at.autocorr_noise_id, y, af, data_type=dt)
    ctx.check(a[0] == b[0] and a[2] == b[2], "trend", "identification changes with scale or trend: %s, %s" % (a, b))
    ctx.near(b[1], a[1], 1e-6 * (1 + abs(a[3])) ** 2 * 10, "trend", "alpha after scaling and trend")
    ctx.obs("trends compared")
    ctx.note("tr", x, y, af, dt)


def ratios(ctx):
    """R(n) and B1 are the ratios of the variances they name"""
    from allantools import ci
    r = ctx.r
    N = gen.length(ctx, 12, 1500)
    af = r.choice([1, 1, 2, 3, 4, 5, 7, 10, 25])
    if r.random() < .15:
        N = 3 * af + 1 + r.randrange(4)
    elif N < 4 * af + 3:
        N = 4 * af + 3 + r.randrange(3 * af)
    x = gen.record(ctx, N, kinds=["white", "rwalk", "rwfm", "ramp+noise", "sine", "step", "outlier", "drift+noise"])
    rate = gen.rate(ctx)
    X = ref.ld(x)
    ad, n, na = ref.adev(X, rate, af)
    md, n2, nm = ref.mdev(X, rate, af)
    if n < 2 or n2 < 2 or not float(ad) > 1e6 * max(na, nm) or not float(md) > 1e6 * nm:
        raise Skip()
    ctx.say("rn, b1 N=%d af=%d rate=%r", N, af, rate)
    q = (md / ad) ** 2
    g = ctx.call(ci.rn, gen.container(ctx, x), af, rate)
    ctx.near(float(g), q, 1e-5 * float(q), "rn", "rn(N=%d, af=%d, rate=%r)" % (N, af, rate))
    y = np.diff(X) * np.longdouble(rate)
    k = len(y) // af
    ya = y[:k * af].reshape(k, af).mean(axis=1)
    v = np.sum((ya - ya.mean()) ** 2) / (k - 1)
    cond = ref.EPS * ref.amax(np.asarray(x)) * float(rate) * 4 / (math.sqrt(float(v)) + 1e-300)
    if cond < 1e-7:
        b = v / ad ** 2
        g = ctx.call(ci.b1, gen.container(ctx, x), af, rate)
        ctx.near(float(g), b, 1e-5 * float(b), "b1", "b1(N=%d, af=%d, rate=%r)" % (N, af, rate))
    ctx.obs("ratios compared", 2)
    ctx.note("ra", x, af, rate)


MU = {2: -2, 1: -2, 0: -1, -1: 0, -2: 1, -3: 2, -4: 3}


def b1t(N, mu):
    N = int(N)
    N = float(N)
    if mu == 0:
        return N * math.log(N) / (2 * (N - 1) * math.log(2))
    return N * (1 - N ** mu) / (2 * (N - 1) * (1 - 2.0 ** mu))


def rnt(af, b):
    af = int(af)
    if b == 0:
        return 1.0 / af
    if b == -1:
        return (3 * math.log(256 / 27.) / 8) / ((1.038 + 3 * math.log(math.pi * af)) / 4)
    return 1.0


def theory(ctx):
    from allantools import ci
    r = ctx.r
    N = gen.length(ctx, 3, 100000)
    mu = r.choice([2, 1, 0, -1, -2, 3])
    b = r.choice([0, -1, -2, -3, -4, -5, -6])
    af = gen.length(ctx, 1, 10000)
    if r.random() < .3:
        N, af = np.int32(N), np.int32(af)
    elif r.random() < .3:
        N, af = np.int64(N), np.int64(af)
    ctx.say("theory N=%d mu=%d b=%d af=%d %s", N, mu, b, af, type(N).__name__)
    ctx.near(float(ctx.call(ci.b1_theory, N, mu)), b1t(N, mu), 1e-9 * b1t(N, mu), "b1_theory", "b1_theory(%d, %d)" % (N, mu))
    if hasattr(ci, "b_to_mu"):
        ctx.check(ctx.call(ci.b_to_mu, b) == MU[b + 2], "b_to_mu", "b_to_mu(%d)" % b)
    ctx.near(float(ctx.call(ci.rn_theory, af, b)), rnt(af, b), 1e-9 * rnt(af, b), "rn_theory", "rn_theory(%d, %d)" % (af, b))
    if b > -6:
        lo, hi = b1t(N, MU[b + 1]), b1t(N, MU[b + 2])
        g = float(ctx.call(ci.b1_boundary, b, N))
        ctx.near(g, math.sqrt(lo * hi), 1e-9 * g, "b1_boundary", "b1_boundary(%d, %d)" % (b, N))
        ctx.check(min(lo, hi) * (1 - 1e-9) <= g <= max(lo, hi) * (1 + 1e-9), "b1_boundary", "boundary outside its neighbours")
    g = float(ctx.call(ci.rn_boundary, af, b))
    ctx.near(g, math.sqrt(rnt(af, b) * rnt(af, b - 1)), 1e-9 * g, "rn_boundary", "rn_boundary(%d, %d)" % (af, b))
    ctx.obs("theory values compared", 4)
    ctx.note("th", N, mu, b, af)


def averages(ctx):
    """measured ratios of simulated noise agree with theory on average"""
    from allantools import ci
    r = ctx.r
    alpha = r.choice([2, 0, -2])
    af = r.choice([1, 2, 4])
    n = r.choice([32, 64])
    N = n * af + 1
    K = 150
    rate = gen.rate(ctx)
    va = vv = 0.0
    rr = []
    for _ in range(K):
        x = idref.powerlaw(ctx, N, alpha)
        g = ctx.call(ci.b1, x, af, rate)
        a = ctx.call(ctx.at.oadev, x, rate=rate, taus=[af / float(rate)])[1][0]
        ad = ctx.call(ctx.at.adev, x, rate=rate, taus=[af / float(rate)])[1][0]
        va += ad ** 2
        vv += g * ad ** 2
        rr.append(ctx.call(ci.rn, x, af, rate))
    mu = MU[alpha]
    want = b1t(n, mu)
    got = vv / va            # ratio of the averages (B1 is defined as ratio of expectations)
    spread = {2: 5 * 2.0 / math.sqrt(K * n), 0: 5 * 2.5 / math.sqrt(K * n), -2: 5 * 1.2 / math.sqrt(K)}[alpha]
    ctx.say("average ratios alpha=%d af=%d n=%d: B1 %.4g, theory %.4g", alpha, af, n, got, want)
    slack = .12 if alpha == -2 and af > 1 else .08 if alpha == -2 else 0.02
    if not (alpha == 2 and af > 1) and not (alpha == -2 and af == 1):
        ctx.near(got / want, 1.0, spread + slack, "b1_average", "average B1 of noise alpha=%d, n=%d, af=%d" % (alpha, n, af))
    ctx.obs("ratios compared", K)
    ctx.note("av", alpha, af, n, ctx.idx)


def refused(ctx):
    r, at = ctx.r, ctx.at
    dt = r.choice(["phase", "freq"])
    af = r.choice([1, 2, 3, 10, 50])
    n = r.randint(3 if dt == "phase" else 2, 29)
    if dt == "phase":
        N = (n - 1) * af + r.randint(1, af)      # n = ceil(N/af)
    else:
        N = n * af + r.randrange(af)
    x = ctx.rng.standard_normal(N)
    ctx.say("%s record of %d samples, af=%d: %d points", dt, N, af, n)
    ctx.refuses("short", "identification with %d points" % n, at.autocorr_noise_id, x, af, data_type=dt)
    # and one point more is accepted
    N = 29 * af + 1 if dt == "phase" else 30 * af
    ctx.call(at.autocorr_noise_id, ctx.rng.standard_normal(N), af, data_type=dt)
    ctx.note("ref", dt, af, n)


def pieces(ctx):
    from allantools import ci
    N = gen.length(ctx, 8, 600, 1_100_000)
    x, d = record(ctx, N)
    deg = ctx.r.choice([0, 1, 2])
    # internal building blocks: observed where they exist under these names, but nothing depends on that
    e = np.asarray(ctx.call(ci.detrend, x, deg), dtype=float) if hasattr(ci, "detrend") else None
    w = np.asarray(idref.poly_residual(x, deg), dtype=float)
    if e is not None:
        ctx.nears(e, w, 1e-9 * np.max(np.abs(w)) + 1e3 * ref.EPS * ref.amax(x), "detrend", "detrend(deg=%d)" % deg)
    if np.std(x) > 1e-7 * ref.amax(x) and hasattr(ci, "lag1_acf"):
        g = ctx.call(ci.lag1_acf, x)
        ctx.near(float(g), idref.lag1(ref.ld(x)), 1e-7, "lag1", "lag1_acf")
        ctx.check(abs(float(g)) <= 1 + 1e-12, "lag1", "lag-1 autocorrelation %r" % g)
    ctx.obs("identifications compared")
    ctx.say("detrend, lag1_acf N=%d %s", N, d)
    ctx.note("pc", x, deg)


FAMILIES = [Family(recursion, 2500, 60000, timeout=120), Family(identify, 160, 3000, timeout=120), Family(trends, 500, 10000),
            Family(ratios, 2500, 50000), Family(theory, 2500, 50000), Family(averages, 40, 600, timeout=120),
            Family(refused, 300, 4000), Family(pieces, 900, 15000, timeout=120)]
