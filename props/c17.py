import math
import numpy as np
from mon import gen, whiteness
from mon.core import Family, Skip

SCALE = 4      # quick-tier multiplier of the family counts
RULE = ("A case is one or more series generated by Noise objects of the real library; the monitor applies the inverse causal filter "
        "(coefficients of (1-z)^(-b/2)) and tests the recovered samples for independence (at every lag, so also wrap-around), "
        "Gaussianity and the given variance, over the record, its parts and each position over repeated generations; histories of "
        "several objects are checked for isolation and for inputs taking effect. Non-trivial: distinct (length, variance, exponent, history).")
EVENTS = ["calls", "samples whitened", "positions checked", "histories checked", "inputs changed", "seeds replayed", "modes checked", "b=0", "b=-1", "b=-2",
          "b=-3", "b=-4", "fractional b"]


def coeffs(b, n):
    """coefficients of (1-z)^(b/2)"""
    h = np.ones(n, dtype=np.longdouble)
    if n > 1:
        k = np.arange(1, n, dtype=np.longdouble)
        h[1:] = np.cumprod((k - 1 - np.longdouble(b) / 2) / k)
    return h


def inverse(x, b):
    """undo the filter"""
    n = len(x)
    x = np.asarray(x, dtype=float)
    if b == 0:
        return x
    if b in (-2, -4):
        for _ in range(int(-b) // 2):
            x = np.concatenate([x[:1], np.diff(x)])
        return x
    g = coeffs(-b, n).astype(float)
    if n <= 64:
        return np.array([np.dot(g[:k + 1], x[k::-1]) for k in range(n)])
    # take out integer differencing first to keep the numbers small
    d = 0
    while b + 2 * d <= -2:
        x = np.concatenate([x[:1], np.diff(x)])
        d += 1
    b = b + 2 * d
    if b == 0:
        return x
    g = coeffs(-b, n).astype(float)
    size = 2 * n
    return np.fft.irfft(np.fft.rfft(g, size) * np.fft.rfft(x, size), size)[:n]


def variance(ctx):
    r = ctx.r
    if ctx.hot["floats"] and r.random() < .3:
        v = abs(r.choice(ctx.hot["floats"]))
        if 1e-40 < v < 1e20:
            return v * r.choice([1, 2, .5])
    return r.choice([1, 1.0, 2, 1e-20, 2e-20, 4.0, 0.25, ctx.mag(-40, 10)])


def exponent(ctx):
    r = ctx.r
    if ctx.idx % 3 < 2:
        b = [0, -1, -2, -3, -4][(ctx.idx // 3) % 5]
        b = r.choice([b, b, float(b), np.float64(b), np.int64(b)])
    else:
        b = r.choice([-.5, -1.5, -2.5, -3.5, .5, 1, 2, -5, -3.3, r.uniform(-4, 2), r.uniform(-4, 0)])
    if b == int(b) and -4 <= b <= 0:
        ctx.obs("b=%d" % b)
    else:
        ctx.obs("fractional b")
    return b


def size(ctx, hi=17):
    r = ctx.r
    hot = [int(round(math.log2(v))) for v in ctx.hot["ints"] if 2 <= v <= 1 << 20]
    if hot and r.random() < .4:
        k = r.choice(hot) + r.choice([-1, 0, 1, 1])
        return 1 << max(0, min(k, 20))
    return 1 << r.randint(0, hi)


def amount(b, n):
    """numerical error of undoing the filter relative to sqrt(qd)"""
    h = np.abs(coeffs(b, n))
    return float(np.sqrt(np.sum(h * h)) * math.sqrt(n) if b < 0 else 1) * 1e-15 * 30


def generate(ctx, o, qd=None):
    x = ctx.call(o.generateNoise)
    ts = o.time_series
    ctx.check(isinstance(ts, np.ndarray), "series", "time_series is %r" % type(ts))
    if x is not None:
        ctx.check(np.array_equal(x, ts), "series", "the returned series is not the stored time_series")
    ctx.check(ts.ndim == 1 and len(ts) == o.nr, "length", "Noise(nr=%d) generated shape %s" % (o.nr, np.shape(ts)))
    ctx.check(ts.dtype == float, "length", "dtype %s" % ts.dtype)
    return ts.copy()


def new(ctx, nr, qd, b):
    at, r = ctx.at, ctx.r
    u = r.random()
    if u < .4:
        return ctx.call(at.Noise, nr, qd, b)
    if u < .6:
        return ctx.call(at.Noise, nr=nr, qd=qd, b=b)
    o = ctx.call(at.Noise)
    if r.random() < .3:
        ctx.call(o.set_input, nr=4, qd=3.0, b=-1)
        if r.random() < .5:
            ctx.call(o.generateNoise)
    if u < .8:
        ctx.call(o.set_input, nr, qd, b)
    else:
        ctx.call(o.set_input, nr=nr, qd=qd, b=b)
    ctx.obs("inputs changed")
    return o


def whiten(ctx):
    r = ctx.r
    b, qd = exponent(ctx), variance(ctx)
    n = size(ctx, 18 if ctx.thorough else 16)
    K = r.choice([1, 2, 3]) if n > 256 else r.choice([2, 10, 40])
    ctx.say("Noise(%d, %.4g, %r) x%d", n, qd, b, K)
    o = new(ctx, n, qd, b)
    W = [inverse(generate(ctx, o), b) for _ in range(K)]
    whiteness.check(ctx, np.concatenate(W), float(qd), "filter", "Noise(%d, %.4g, %r)" % (n, qd, b), fresh=False)
    ctx.note("w", n, qd, b, ctx.idx)


def positions(ctx):
    r = ctx.r
    b, qd = exponent(ctx), variance(ctx)
    n = 1 << r.randint(0, 8)
    K = 300
    ctx.say("Noise(%d, %.4g, %r) positions x%d", n, qd, b, K)
    o = new(ctx, n, qd, b)
    W = np.array([inverse(generate(ctx, o), b) for _ in range(K)])
    whiteness.positions(ctx, W, float(qd), "filter", "Noise(%d, %.4g, %r)" % (n, qd, b))
    # correlation of every pair of positions
    Z = W / math.sqrt(float(qd))
    C = Z.T @ Z
    t2 = math.log(2 * n * n / 1e-10)
    lim = 1.25 * t2 + math.sqrt((1.25 * t2) ** 2 + 2 * K * t2)
    np.fill_diagonal(C, 0)
    i = np.unravel_index(int(np.argmax(np.abs(C))), C.shape)
    ctx.check(abs(C[i]) < 1.4 * lim, "filter", "Noise(%d, %.4g, %r): recovered samples %s are correlated (%.3g)" % (n, qd, b, i, C[i] / K))
    ctx.note("p", n, qd, b, ctx.idx)


def long(ctx):
    """every position and the slow and fast modes of long series over several generations"""
    r = ctx.r
    b, qd = exponent(ctx), variance(ctx)
    n = 1 << r.randint(9, 15)
    K = 25
    ctx.say("Noise(%d, %.4g, %r) long x%d", n, qd, b, K)
    o = new(ctx, n, qd, b)
    W = np.array([inverse(generate(ctx, o), b) for _ in range(K)])
    what = "Noise(%d, %.4g, %r)" % (n, qd, b)
    whiteness.positions(ctx, W, float(qd), "filter", what)
    whiteness.modes(ctx, W, float(qd), "filter", what)
    ctx.note("l", n, qd, b, ctx.idx)


def direct(ctx):
    """a generated series is a sum of white impulses through the filter: for tiny lengths the full covariance;
    for the special exponents the relation to the white sequence of the same seed"""
    at, r = ctx.at, ctx.r
    n = size(ctx, 14)
    qd = variance(ctx)
    s = r.getrandbits(32)
    # white noise at b=0 of this seed
    b = exponent(ctx)
    o1, o2, o3 = new(ctx, n, qd, r.choice([0, 0.0])), new(ctx, n, qd, 0), new(ctx, n, qd, b)
    np.random.seed(s)
    w = generate(ctx, o1)
    np.random.seed(s)
    w2 = generate(ctx, o2)
    ctx.check(np.array_equal(w, w2), "seed", "the same seed does not reproduce Noise(%d, %g, 0)" % (n, qd))
    q2 = variance(ctx)
    o4 = new(ctx, n, q2, 0)
    np.random.seed(s)
    w3 = generate(ctx, o4)
    ctx.nears(w3 / math.sqrt(float(q2)), w.astype(np.longdouble) / math.sqrt(float(qd)), 1e-10 * (np.abs(w) / math.sqrt(float(qd)) + .1), "variance",
              "Noise(%d, %.4g, 0) and Noise(%d, %.4g, 0) of the same seed scaled by the root of the variance" % (n, q2, n, qd))
    np.random.seed(s)
    x = generate(ctx, o3)
    ctx.say("Noise(%d, %.4g, %r) against its white sequence", n, qd, b)
    e = inverse(x, b)
    tol = (amount(b, n) + 1e-12) * math.sqrt(float(qd)) * 30
    if b > 0:
        tol *= n
    ctx.nears(e, w, tol, "filter", "Noise(%d, %.4g, %r) with its filter undone against the white sequence of the same seed" % (n, qd, b))
    if b in (-2, -4):
        y = np.cumsum(w.astype(np.longdouble))
        if b == -4:
            y = np.cumsum(y)
        ctx.nears(x, y, 1e-11 * float(np.max(np.abs(y))) + tol, "cumsum", "Noise(b=%r) against %s cumulative sum" % (b, "the" if b == -2 else "the second"))
    ctx.obs("seeds replayed")
    ctx.note("d", n, qd, b, s)


def history(ctx):
    """random histories over several objects: inputs take effect at the next generation, objects are independent,
    successive generations are independent"""
    at, r = ctx.at, ctx.r
    objs = {}
    whites = []
    kept = []
    n_ops = r.randint(6, 25)
    for _ in range(n_ops):
        u = r.random()
        if not objs or (u < .2 and len(objs) < 4):
            p = (1 << r.randint(0, 9), variance(ctx), r.choice([0, -1, -2, -3, -4]))
            objs[len(objs)] = [new(ctx, *p), p, None]
            continue
        k = r.choice(sorted(objs))
        e = objs[k]
        if u < .45:
            e[1] = (1 << r.randint(0, 9), variance(ctx), r.choice([0, -1, -2, -3, -4]))
            if r.random() < .7:
                ctx.call(e[0].set_input, nr=e[1][0], qd=e[1][1], b=e[1][2])
            else:
                ctx.call(e[0].set_input, *e[1])
            if e[2] is not None:
                ctx.check(np.array_equal(e[0].time_series, e[2]), "stored", "setting inputs changed the stored series")
            ctx.obs("inputs changed")
        elif u < .55:
            t0 = ctx.mag(-3, 3)
            ctx.call(e[0].phase_psd_from_qd, t0)
            ctx.call(e[0].frequency_psd_from_qd, t0)
            ctx.call(e[0].adev, t0, 10 * t0)
            ctx.call(e[0].mdev, t0, 10 * t0)
        else:
            x = generate(ctx, e[0])
            n, qd, b = e[1]
            ctx.check(len(x) == n, "length", "inputs (%d, %g, %g) not in effect: length %d" % (n, qd, b, len(x)))
            e[2] = x
            kept.append((e[0].time_series, x))
            whites.append(inverse(x, b) / math.sqrt(float(qd)))
            for j in objs:
                if j != k and objs[j][2] is not None:
                    ctx.check(np.array_equal(objs[j][0].time_series, objs[j][2]), "isolation", "generating with one object changed another")
        for j in objs:
            o, p, _ = objs[j]
            ctx.check((o.nr, o.qd, o.b) == p, "isolation", "object inputs %r, expected %r" % ((o.nr, o.qd, o.b), p))
    ctx.say("history of %d operations on %d objects", n_ops, len(objs))
    for a, b in kept:
        ctx.check(np.array_equal(a, b), "kept", "a series of %d values was altered after it was generated" % len(b))
        ctx.obs("kept series intact")
    if whites:
        whiteness.check(ctx, np.concatenate(whites), 1.0, "history", "a history of generations", fresh=False)
        for i in range(len(whites)):
            for j in range(i):
                m = min(len(whites[i]), len(whites[j]))
                if m >= 4:
                    ctx.check(not np.allclose(whites[i][:m], whites[j][:m], rtol=1e-6, atol=1e-9), "repeat", "two generations are the same")
    ctx.obs("histories checked")
    ctx.note("h", ctx.idx)


FAMILIES = [Family(whiten, 800, 10000, timeout=120), Family(positions, 400, 6000, timeout=120), Family(long, 60, 1500, timeout=120), Family(direct, 1500, 30000),
            Family(history, 800, 15000)]
