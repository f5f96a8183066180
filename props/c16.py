import math
import numpy as np
from scipy import stats
from mon import gen, whiteness
from mon.core import Family, Skip

SCALE = 2      # quick-tier multiplier of the family counts
RULE = ("A case is one or more generated noise series (or PSD estimates) of the real library: monitors undo the integration or "
        "differentiation and test the recovered samples for independence, Gaussianity and the implied variance (as a whole, in "
        "parts of the record, at every lag and at every position over repeated generations); PSD estimates are compared with the "
        "explicit discrete Fourier sum and Parseval's relation. Non-trivial: distinct (generator, length, level, rate, seed) or records.")
EVENTS = ["calls", "samples whitened", "positions checked", "seeds replayed", "spectra compared", "powers compared", "pink octaves",
          "interleaved sources", "modes checked", "levels compared"]


def level(ctx):
    r = ctx.r
    if ctx.hot["floats"] and r.random() < .3:
        v = abs(r.choice(ctx.hot["floats"]))
        if 1e-30 < v < 1e20:
            return v * r.choice([1, 2, .5])
    u = r.random()
    if u < .15:
        return 1.0
    if u < .25:
        return r.choice([1, 2, 3, 10])
    return ctx.mag(-24, 8)


def undo(kind, x, fs):
    """independent samples behind x"""
    if kind == "white":
        return x
    if kind == "brown":
        return np.diff(x) * fs
    return None


def implied(kind, lev, fs):
    if kind == "white":
        return lev * fs / 2.0
    return 4 * math.pi ** 2 * lev * fs / 2.0


def make(ctx, kind, n, lev, fs):
    from allantools import noise
    r = ctx.r
    f = getattr(noise, kind)
    name = {"white": "b0", "brown": "b_minus2", "violet": "b2"}[kind]
    if lev == 1 and fs == 1 and r.random() < .3:
        x = ctx.call(f, n)
    elif fs == 1 and r.random() < .3:
        x = ctx.call(f, n, lev)
    elif r.random() < .4:
        x = ctx.call(f, n, lev, fs)
    else:
        x = ctx.call(f, num_points=n, **{name: lev, "fs": fs})
    x = np.asarray(x)
    ctx.check(x.shape == (n,), "length", "%s(%d) returned shape %s" % (kind, n, x.shape))
    ctx.check(x.dtype == float, "length", "%s returned dtype %s" % (kind, x.dtype))
    return x


def draw(ctx, hi):
    return gen.length(ctx, 1, hi, 2_200_000, .1)


def whiten(ctx):
    """white and brown: recovered samples of one or several series"""
    r = ctx.r
    kind = ["white", "brown"][ctx.idx % 2]
    n = draw(ctx, 1 << 20 if ctx.thorough else 1 << 18)
    lev, fs = level(ctx), gen.rate(ctx)
    K = max(1, min(r.choice([1, 2, 3]), 200000 // n)) if n > 500 else r.choice([2, 5, 20])
    ctx.say("%s n=%d level=%.4g fs=%r x%d", kind, n, lev, fs, K)
    W = []
    for _ in range(K):
        x = make(ctx, kind, n, lev, fs)
        w = undo(kind, x, float(fs))
        if kind == "brown":
            # the walk starts within a step of zero
            ctx.check(abs(x[0]) * float(fs) < 8 * math.sqrt(implied(kind, lev, float(fs))), "start",
                      "Brownian noise starts at %g" % x[0])
        W.append(w)
    w = np.concatenate(W)
    if len(w):
        whiteness.check(ctx, w, implied(kind, lev, float(fs)), kind, "%s(%d, %.4g, fs=%r)" % (kind, n, lev, fs),
                        fresh=kind == "white" or n < 4000)
    ctx.note(kind, n, lev, fs, ctx.idx)


def differentiate(ctx):
    """violet: the series is fs times the first difference of independent samples"""
    r = ctx.r
    n = draw(ctx, 1 << 18)
    lev, fs = level(ctx), gen.rate(ctx)
    K = r.choice([1, 2]) if n > 300 else 40
    var = lev / (2 * math.pi) ** 2 * float(fs) / 2
    ctx.say("violet n=%d level=%.4g fs=%r x%d", n, lev, fs, K)
    X = [make(ctx, "violet", n, lev, fs) / float(fs) for _ in range(K)]
    # an MA(1) with unit root: cumulative sums are w_{k+1}-w_0, i.e. white plus one common constant
    for x in X[:3]:
        c = np.concatenate([[0.0], np.cumsum(x)])
        m = len(c)
        if m < 64:
            continue
        # the constant is removed by projection onto the mean-free subspace, whose n dimensions are white again
        # (Helmert transform keeps independence)
        k = np.arange(1, m)
        h = (np.cumsum(c)[:-1] - k * c[1:]) / np.sqrt(k * (k + 1.0))
        whiteness.check(ctx, h, var, "violet", "violet(%d, %.4g, fs=%r)" % (n, lev, fs), fresh=False)
        ctx.check(float(np.max(np.abs(c))) < 2 * 9 * math.sqrt(var) + 1e-9 * float(np.max(np.abs(x))), "violet",
                  "the integral of violet noise wanders off: %.3g standard deviations" % (np.max(np.abs(c)) / math.sqrt(var)))
    if n < 64 or K > 2:
        A = np.concatenate(X)
        ctx.check(whiteness.chi2_ok(float(np.sum(A[::2] ** 2)) / (2 * var), len(A[::2])) or n == 1 or n % 2 == 1, "violet",
                  "variance of violet(%d) is %.4g of the implied" % (n, np.mean(A ** 2) / (2 * var)))
        firsts = np.array([x[0] for x in X])
        lasts = np.array([x[-1] for x in X])
        for f, nm in ((firsts, "first"), (lasts, "last")):
            ctx.check(whiteness.chi2_ok(float(np.sum(f ** 2)) / (2 * var), len(f)), "violet",
                      "%s sample of violet(%d) has variance %.4g of the implied" % (nm, n, np.mean(f ** 2) / (2 * var)))
    ctx.note("violet", n, lev, fs, ctx.idx)


def position(ctx):
    """every position of the record over many generations"""
    r = ctx.r
    kind = ["white", "brown", "violet"][ctx.idx % 3]
    n = r.choice([1, 2, 3, 4, 5, 7, 8, 16, 33, 64, 100, 257])
    lev, fs = level(ctx), gen.rate(ctx)
    K = 300
    ctx.say("%s positions n=%d level=%.4g fs=%r x%d", kind, n, lev, fs, K)
    X = np.array([make(ctx, kind, n, lev, fs) for _ in range(K)])
    var = implied(kind, lev, float(fs)) if kind != "violet" else lev / (2 * math.pi) ** 2 * float(fs) / 2
    if kind == "violet":
        # every sample has twice the variance; the integral, freed of its common constant (Helmert), is white again
        X = X / float(fs)
        whiteness.positions(ctx, X, 2 * var, kind, "%s(%d, %.4g, fs=%r)" % (kind, n, lev, fs))
        c = np.concatenate([np.zeros((K, 1)), np.cumsum(X, axis=1)], axis=1)
        k = np.arange(1, n + 1)
        W = (np.cumsum(c, axis=1)[:, :-1] - k * c[:, 1:]) / np.sqrt(k * (k + 1.0))
    else:
        W = X if kind == "white" else np.diff(X, axis=1) * float(fs)
    if W.shape[1]:
        whiteness.positions(ctx, W, var, kind, "%s(%d, %.4g, fs=%r)" % (kind, n, lev, fs))
        whiteness.check(ctx, W.ravel(), var, kind, "%s(%d, %.4g, fs=%r) repeated" % (kind, n, lev, fs), fresh=False)
    ctx.note("pos", kind, n, lev, fs, ctx.idx)


def long(ctx):
    """first and last samples, and slow and fast modes, of long records over several generations"""
    r = ctx.r
    kind = ["white", "brown", "violet"][ctx.idx % 3]
    n = gen.length(ctx, 256, 30000)
    lev, fs = level(ctx), gen.rate(ctx)
    K = 25
    ctx.say("%s long n=%d level=%.4g fs=%r x%d", kind, n, lev, fs, K)
    X = np.array([make(ctx, kind, n, lev, fs) for _ in range(K)])
    what = "%s(%d, %.4g, fs=%r)" % (kind, n, lev, fs)
    var = implied(kind, lev, float(fs)) if kind != "violet" else lev / (2 * math.pi) ** 2 * float(fs) / 2
    if kind == "violet":
        X = X / float(fs)
        whiteness.positions(ctx, X, 2 * var, kind, what)
        c = np.concatenate([np.zeros((K, 1)), np.cumsum(X, axis=1)], axis=1)
        k = np.arange(1, n + 1)
        W = (np.cumsum(c, axis=1)[:, :-1] - k * c[:, 1:]) / np.sqrt(k * (k + 1.0))
    else:
        W = X if kind == "white" else np.diff(X, axis=1) * float(fs)
    whiteness.positions(ctx, W, var, kind, what)
    whiteness.modes(ctx, W, var, kind, what)
    ctx.note("long", kind, n, lev, fs, ctx.idx)


def levels(ctx):
    """the same seed at another level or sampling frequency: the same series times a constant"""
    from allantools import noise
    r = ctx.r
    kind = ["white", "brown", "violet"][ctx.idx % 3]
    f = getattr(noise, kind)
    n = gen.length(ctx, 1, 5000)
    l1, f1, l2, f2 = level(ctx), gen.rate(ctx), level(ctx), gen.rate(ctx)
    s = r.getrandbits(32)
    ctx.say("%s n=%d seed=%d: level %.4g at fs=%r, %.4g at fs=%r", kind, n, s, l1, f1, l2, f2)
    np.random.seed(s)
    x = make(ctx, kind, n, l1, f1)
    np.random.seed(s)
    y = make(ctx, kind, n, l2, f2)
    e = {"white": .5, "brown": -.5, "violet": 1.5}[kind]
    k = math.sqrt(l2 / l1) * (float(f2) / float(f1)) ** e
    ctx.nears(y, k * x, 1e-12 * k * (float(np.max(np.abs(x))) + 1e-300), "scale", "%s at level %.4g, fs=%r against level %.4g, fs=%r of the same seed" % (
        kind, l2, f2, l1, f1))
    ctx.obs("levels compared")
    ctx.note("lev", kind, n, l1, f1, l2, f2, s)


def seeds(ctx):
    """seeding the process-wide generator reproduces a series; without, successive calls differ"""
    from allantools import noise
    r = ctx.r
    kind = r.choice(["white", "brown", "violet", "pink"])
    n = r.choice([2, 3, 10, 100, 1000, 4097])
    s = r.getrandbits(32)
    a = (n, r.choice([1.0, 3e-7]), gen.rate(ctx)) if kind != "pink" else (n, r.choice([1, 2, 7, 16, 80]))
    f = getattr(noise, kind)
    ctx.say("seed %d %s%r", s, kind, a)
    np.random.seed(s)
    x = ctx.call(f, *a)
    y = ctx.call(f, *a)
    if r.random() < .5:
        ctx.call(noise.white, 17)
    np.random.seed(s)
    x2 = ctx.call(f, *a)
    y2 = ctx.call(f, *a)
    np.random.seed(s ^ (1 << r.randrange(32)))
    z = ctx.call(f, *a)
    ctx.check(np.array_equal(x, x2) and np.array_equal(y, y2), "seed", "%s%r is not reproduced by the same seed" % (kind, a))
    ctx.check(not np.array_equal(x, y) and not np.array_equal(x, z), "seed", "%s%r repeats itself" % (kind, a))
    ctx.check(len(x) == n, "length", "%s%r has %d samples" % (kind, a, len(x)))
    ctx.obs("seeds replayed")
    ctx.note("seed", kind, a, s)


def pink(ctx):
    """power per octave of pink noise is constant over the octaves its depth resolves"""
    from allantools import noise
    r = ctx.r
    depth = r.choice([16, 20, 32, 40, 64, 80, 100, 128, 128, 600, 1100, 2200])
    n = r.choice([1024, 1000, 999, 2048]) if depth < 500 else 60 * depth
    K = 60 if not ctx.thorough else 150
    if depth > 500:
        K = max(5, K // 5)
    ctx.say("pink n=%d depth=%d x%d", n, depth, K)
    S = 0
    X = []
    for i in range(K):
        x = ctx.call(noise.pink, n, depth) if depth != 80 or i % 2 else ctx.call(noise.pink, num_points=n)
        ctx.check(np.shape(x) == (n,), "length", "pink(%d) has shape %s" % (n, np.shape(x)))
        X.append(x)
        S = S + np.abs(np.fft.rfft(x - np.mean(x))) ** 2
    f = np.fft.rfftfreq(n)
    P = []
    lo = .5
    while lo / 2 >= 1.5 / depth and lo / 2 >= 8.0 / n:
        s = (f <= lo) & (f > lo / 2)
        if np.sum(s) * K < 450:
            break
        P.append(float(np.mean(S[s] * f[s])) / K / n)
        lo /= 2
    for i, p in enumerate(P):
        ctx.obs("pink octaves")
        ctx.check(.7 < p / P[0] < 1.5, "pink", "pink(%d, %d): f*PSD per octave down from Nyquist is %s, not constant" % (
            n, depth, np.round(np.array(P) / P[0], 3)))
    w = S * f
    peak = max(3, 1.6 * float(stats.chi2.isf(1e-10 / n, 2 * K)) / (2 * K))
    for k in range(8, len(S) - 1):
        b = float(np.median(w[max(1, k - 8):k + 9]))
        ctx.check(w[k] < peak * b, "line", "pink(%d, %d): spectral line of %.3g times its surroundings at frequency %.4g" % (n, depth, w[k] / b, f[k]))
    X = np.array(X)
    v = np.mean(np.diff(X, axis=1) ** 2, axis=0)
    m = float(np.median(v))
    top = 1.4 * float(stats.chi2.isf(1e-10 / n, K)) / K
    ctx.check(float(np.max(v)) < max(4, top) * m, "pink", "pink(%d, %d): step %d is %.1f times as large as usual" % (
        n, depth, int(np.argmax(v)), math.sqrt(float(np.max(v)) / m)))
    # steps of the same size at every phase of the 2^c cycles
    i = np.arange(1, n) % depth
    c, mv = 0, float(np.mean(v[i > 0]))
    while 1 << c < depth:
        s = (i % (1 << c) == 0) & (i > 0)
        q = int(np.sum(s)) * K
        if q >= 300:
            ctx.check(abs(float(np.mean(v[s])) / mv - 1) < 7 * math.sqrt(2.0 / q) + 20.0 / q, "pink", "pink(%d, %d): steps at multiples of %d "
                      "have mean square %.4g, overall %.4g" % (n, depth, 1 << c, float(np.mean(v[s])), mv))
        c += 1
    V = np.mean(X ** 2, axis=0)
    V2 = float(np.mean(V))
    hi, lo = max(4, 1.4 * float(stats.chi2.isf(1e-10, K)) / K), max(4, 1.4 * K / float(stats.chi2.ppf(1e-10, K)))
    ctx.check(V2 / lo < V[0] < hi * V2 and V2 / lo < V[-1] < hi * V2, "pink", "pink noise is not stationary from its first sample")
    # two sources read in turn do not know of each other
    a, b = noise.iterpink(depth), noise.iterpink(r.choice([depth, 33]))
    AB = np.array([(next(a), next(b)) for _ in range(n)])
    c = np.corrcoef(np.diff(AB, axis=0).T)[0, 1]
    ctx.check(abs(c) < 8 / math.sqrt(n), "interleaved", "two pink sources read in turn are correlated by %.3g over %d samples" % (c, n))
    D = np.diff(AB, axis=0)
    ctx.check(.6 < np.mean(D[:, 0] ** 2) / m < 1.6 and .6 < np.mean(D[:, 1] ** 2) / m < 1.6, "interleaved",
              "two pink sources read in turn have mean square steps %s, alone %.3g" % (np.mean(D ** 2, axis=0), m))
    ctx.obs("interleaved sources")
    for d in (1, 2, 3):
        k = r.randint(0, 40)
        ctx.check(len(ctx.call(noise.pink, k, d)) == k, "length", "pink(%d, %d) length" % (k, d))
    ctx.note("pink", n, depth, ctx.idx)


def psd(ctx):
    """numpy_psd against the explicit Fourier sum and Parseval"""
    from allantools import noise
    r = ctx.r
    N = gen.length(ctx, 1, 1 << 16, 2_200_000, .1)
    fs = gen.rate(ctx)
    x = gen.record(ctx, N)
    ctx.say("numpy_psd N=%d fs=%r", N, fs)
    if float(fs) == 1 and r.random() < .5:
        f, p = ctx.call(noise.numpy_psd, gen.container(ctx, x))
    else:
        f, p = ctx.call(noise.numpy_psd, gen.container(ctx, x), fs)
    M = N // 2 + 1
    ctx.check(np.shape(f) == (M,) and np.shape(p) == (M,), "shape", "numpy_psd of %d samples returned %s, %s" % (N, np.shape(f), np.shape(p)))
    ctx.nears(f, np.arange(M) * (float(fs) / N), 1e-12 * float(fs), "axis", "frequency axis (N=%d, fs=%r)" % (N, fs))
    ld = np.longdouble
    X = np.asarray(x).astype(ld)
    ms = np.mean(X * X)
    tol = 1e-11 * float(np.sum(X * X)) * 2 / float(fs)     # fft rounding, relative to the total energy
    ks = range(M) if N <= 128 else [0, 1, M - 1, M - 2, M // 2] + [r.randrange(M) for _ in range(4)]
    t = np.arange(N)
    for k in ks:
        ph = 2 * np.pi * ((t * k) % N).astype(ld) / N
        w = 2 * ((np.sum(X * np.cos(ph))) ** 2 + (np.sum(X * np.sin(ph))) ** 2) / (N * ld(fs))
        ctx.near(p[k], w, 1e-9 * float(w) + tol * 1e-3 + 1e-300, "psd", "numpy_psd bin %d of %d (N=%d)" % (k, M, N))
        ctx.obs("spectra compared")
    df = float(fs) / N
    tot = float(np.sum(p)) * df - float(p[0]) * df / 2 - (float(p[-1]) * df / 2 if N % 2 == 0 else 0)
    ctx.near(tot, float(ms), 1e-9 * float(ms) + 1e-300, "power", "total power of the PSD against the mean square (N=%d)" % N)
    ctx.obs("powers compared")
    ctx.check(bool(np.all(np.asarray(p) >= 0)), "psd", "negative density")
    ctx.note("psd", x, fs)


def welch(ctx):
    """scipy_psd: level of white noise, frequency and power of a tone, scaling"""
    from allantools import noise
    r = ctx.r
    nr = r.choice([1, 2, 3, 4, 4, 4, 5, 8, 10])
    N = gen.length(ctx, 64 * nr, 40000)
    fs = gen.rate(ctx)
    F = float(fs)
    lev = level(ctx)
    arg = (fs, nr) if nr != 4 or r.random() < .5 else (fs,)
    ctx.say("scipy_psd N=%d fs=%r segments=%d", N, fs, nr)
    x = ctx.rng.standard_normal(N) * math.sqrt(lev * F / 2)
    f, p = ctx.call(noise.scipy_psd, x, *arg)
    seg = N // nr
    M = len(f)
    ctx.check(len(p) == M and abs(2 * (M - 1) - seg) <= 2, "shape", "scipy_psd of %d samples in %d segments has %d bins" % (N, nr, M))
    df = float(f[1] - f[0])
    ctx.check(f[0] == 0 and abs(df * seg / F - 1) < 2.5 / seg and np.allclose(np.diff(f), df, rtol=1e-6) and
              F / 2 * (1 - 1.5 / seg) < f[-1] <= F / 2 * (1 + 1e-9), "axis", "frequency axis %s .. %s" % (f[:3], f[-1]))
    mean = float(np.mean(p[2:-2])) / lev
    ctx.check(abs(mean - 1) < 7 * math.sqrt(3.0 / N) + 4.0 / seg, "psd", "white noise of density %.4g measured as %.4g" % (lev, mean * lev))
    tot = float(np.sum(p)) * df
    ms = float(np.mean(x * x))
    ctx.check(abs(tot / ms - 1) < 10 * math.sqrt(3.0 / N) + 5.0 / seg + .1 / math.sqrt(nr), "power", "total power %.4g, mean square %.4g" % (tot, ms))
    # a tone
    k = r.uniform(5, seg / 2.0 - 5)
    f0 = k * F / seg
    A = math.sqrt(lev)
    y = A * np.sin(2 * np.pi * f0 / F * np.arange(N) + r.uniform(0, 6))
    f, p = ctx.call(noise.scipy_psd, y, *arg)
    ctx.check(abs(f[int(np.argmax(p))] - f0) < 1.5 * F / seg, "axis", "tone at %g found at %g" % (f0, f[int(np.argmax(p))]))
    tot = float(np.sum(p)) * df
    ctx.check(abs(tot / (A * A / 2) - 1) < .05 + 4.0 / k, "power", "tone of power %.4g measured as %.4g" % (A * A / 2, tot))
    ctx.obs("powers compared", 2)
    ctx.note("welch", N, fs, nr, lev)


FAMILIES = [Family(whiten, 700, 8000, timeout=120), Family(differentiate, 500, 6000, timeout=120), Family(position, 600, 9000),
            Family(long, 90, 1500, timeout=120), Family(levels, 1500, 30000), Family(seeds, 800, 8000), Family(pink, 80, 1000, timeout=120), Family(psd, 2500, 20000), Family(welch, 1500, 8000)]
