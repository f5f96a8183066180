"""Workload generators: records, lengths, averaging factors, rates, requests, containers."""
import array
import math
import numpy as np

KINDS = ["white", "rwalk", "wfm", "rwfm", "ramp+noise", "drift+noise", "sine", "const", "zero", "impulse",
         "quantised", "step", "alternating", "bigoffset", "outlier", "integers", "monotone", "plateaus", "periodic", "mirror",
         "closed", "flatstart", "dynamic", "sorted"]


def length(ctx, lo, hi, far=0, often=.05):
    """a record length in [lo, hi] with emphasis on small ones, powers of two and their neighbours;
    up to far next to numbers that are new in the source, and now and then without them"""
    r = ctx.r
    if far > hi:
        if any(hi < abs(v) < far for v in ctx.hot["ints"]) and r.random() < often or r.random() < .004:
            hi = far
    hi = max(hi, lo)
    hot = [v + d for v in ctx.hot["ints"] for d in (-1, 0, 1, 2)] + [2 * v + 1 for v in ctx.hot["ints"]]
    hot = [v for v in hot if lo <= v <= hi]
    u = r.random()
    if hot and u < 0.45:
        return r.choice(hot)
    u = r.random()
    if u < 0.22:
        n = lo + r.randrange(0, 9)
    elif u < 0.45:
        k = r.randint(max(1, int(math.log2(max(lo, 2)))), int(math.log2(hi)))
        n = 2 ** k + r.choice([-1, 0, 1])
    elif u < 0.55:
        n = 10 ** r.randint(1, max(1, int(math.log10(hi)))) + r.choice([-1, 0, 1])
    else:
        n = int(round(math.exp(r.uniform(math.log(lo), math.log(hi)))))
    return min(max(n, lo), hi)


def rate(ctx, nice=False):
    r = ctx.r
    hot = [abs(v) for v in ctx.hot["floats"] if 1e-9 < abs(v) < 1e12]
    if hot and r.random() < 0.3:
        v = r.choice(hot) * r.choice([1, 1, 0.99, 1.01, 2, 0.5, 10, 0.1])
        return v
    u = r.random()
    if u < 0.2:
        return 1.0
    if u < 0.3:
        return r.choice([1, 2, 3, 7, 10, 100, 1000, np.int64(10), np.int32(4)])
    if u < 0.75:
        return r.choice([2.0, 10.0, 0.5, 0.1, 1 / 3., 1 / 86400., 12.3, 7.0, 1e3, 1e6, 1e-3, 1e-6, 1e9,
                         np.float64(0.2), 2.1, 4.0, 0.25, 1 / 7., 50.0, 1 / 30.])
    return math.exp(r.uniform(math.log(1e-6), math.log(1e6)))


def _kind(ctx, n, kind):
    g = ctx.rng
    t = np.arange(n)
    if kind == "white":
        return g.standard_normal(n)
    if kind in ("rwalk", "wfm"):
        return np.cumsum(g.standard_normal(n))
    if kind == "rwfm":
        return np.cumsum(np.cumsum(g.standard_normal(n)))
    if kind == "ramp+noise":
        return g.uniform(-5, 5) * (10 ** g.uniform(0, 9) if g.random() < .2 else 1) * t + g.standard_normal(n)
    if kind == "drift+noise":
        return g.uniform(-1, 1) * t + g.uniform(-.1, .1) * t * t + g.standard_normal(n)
    if kind == "sine":
        return np.sin(2 * np.pi * t / g.uniform(2, max(3, n))) + 0.01 * g.standard_normal(n)
    if kind == "const":
        return np.full(n, g.uniform(-10, 10))
    if kind == "zero":
        return np.zeros(n)
    if kind == "impulse":
        x = np.zeros(n)
        x[g.integers(n)] = g.uniform(-3, 3)
        if g.random() < .5:
            x[g.choice([0, n - 1])] += 1
        return x
    if kind == "quantised":
        return np.round(np.cumsum(g.standard_normal(n)) * 2) / 4
    if kind == "step":
        x = 0.01 * g.standard_normal(n)
        x[g.integers(n):] += g.uniform(-5, 5)
        return x
    if kind == "alternating":
        return (-1.0) ** t * g.uniform(.5, 2) + 1e-3 * g.standard_normal(n)
    if kind == "bigoffset":
        return g.standard_normal(n) + g.choice([1e6, -1e9, 1e4, -10.0 ** g.uniform(9, 14), 10.0 ** g.uniform(3, 14)])
    if kind == "outlier":
        x = g.standard_normal(n)
        x[g.integers(n)] += g.choice([1e4, -1e4, 1e7, 1e10])
        return x
    if kind == "integers":
        return g.integers(-1000, 1000, n).astype(float)
    if kind == "monotone":
        return g.choice([1, -1]) * np.cumsum(g.exponential(1, n))
    if kind == "sorted":
        x = np.sort(g.standard_normal(n) - (5 if g.random() < .5 else 0))
        return x if g.random() < .5 else x[::-1].copy()
    if kind == "plateaus":
        k = int(g.integers(1, 9))
        return np.repeat(np.cumsum(g.standard_normal(n // k + 1)), k)[:n]
    if kind == "periodic":
        k = int(g.integers(2, max(3, min(n, 40))))
        return np.tile(g.standard_normal(k), n // k + 1)[:n] + (0 if g.random() < .5 else .1) * t
    if kind == "mirror":
        x = np.cumsum(g.standard_normal(n))
        return (x + x[::-1]) / 2 if g.random() < .5 else (x - x[::-1]) / 2
    if kind == "closed":
        x = np.cumsum(g.standard_normal(n))
        x[-1] = x[0]
        if g.random() < .5:
            x[[0, -1]] = 0
        return x
    if kind == "flatstart":
        x = np.cumsum(g.standard_normal(n))
        k = int(g.integers(0, n))
        x[:k] = x[k] if g.random() < .5 else 0
        return x if g.random() < .5 else x[::-1].copy()
    if kind == "dynamic":
        return g.standard_normal(n) * 10 ** g.uniform(-6, 3, n)
    raise KeyError(kind)


SCALES = [1, 1, 1, 1e-9, 1e-12, 1e-15, 1e3, 1e6, 1e-6, 1e-18, 1e12]


def record(ctx, n, kinds=None, scales=SCALES):
    kind = ctx.r.choice(kinds or KINDS)
    scale = ctx.r.choice(scales)
    if ctx.hot["floats"] and ctx.r.random() < 0.25:
        f = abs(ctx.r.choice(ctx.hot["floats"]))
        if 1e-30 < f < 1e20:
            scale = f * ctx.r.choice([1, 2, 0.5, 10, 0.1])
    x = _kind(ctx, n, kind) * scale
    if ctx.r.random() < 0.12:
        x = x + ctx.r.choice([1, -1, 100]) * scale * ctx.rng.uniform(1, 1000)
        kind += "+offset"
    ctx.say("N=%d %s*%g", n, kind, scale)
    return x


NOISY = ["white", "rwalk", "wfm", "rwfm", "ramp+noise", "drift+noise", "sine", "quantised", "step", "alternating",
         "outlier", "impulse", "integers", "monotone", "plateaus", "periodic", "mirror", "closed", "flatstart", "dynamic", "sorted"]


def factors(ctx, mmax, k=6, mmin=1):
    """a handful of averaging factors in [mmin, mmax] with emphasis on both ends"""
    r = ctx.r
    if mmax < mmin:
        return []
    if k >= 5 and mmax <= 800 and r.random() < .03:
        k = r.choice([150, 400])       # hundreds of averaging times at once
    s = {mmin, mmax}
    cand = [mmin + 1, mmin + 2, mmax - 1, mmax - 2, mmax // 2, mmax // 2 + 1, mmax // 3, mmax // 3 + 1,
            (2 * mmax) // 3, (2 * mmax) // 3 + 1]
    cand += [2 ** i for i in range(0, 21)] + [10, 100, 1000, 20, 5, 7]
    cand = [c for c in cand if mmin <= c <= mmax]
    hot = [v + d for v in ctx.hot["ints"] for d in (-1, 0, 1)]
    hot = [v for v in hot if mmin <= v <= mmax]
    while len(s) < k and len(s) < mmax - mmin + 1:
        u = r.random()
        if hot and u < 0.4:
            s.add(r.choice(hot))
            if r.random() < .5:
                hot = []
        elif cand and u < 0.6:
            s.add(r.choice(cand))
        else:
            s.add(int(round(math.exp(r.uniform(math.log(mmin), math.log(mmax))))))
    return sorted(v for v in s if mmin <= v <= mmax)


def request(ctx, ms, rate):
    """write the averaging factors ms as a tau request in one of the ways users write it"""
    r = ctx.r
    ms = list(ms)
    if r.random() < .4:
        r.shuffle(ms)
    taus = [m / float(rate) for m in ms]
    u = r.random()
    if u < .4:
        return taus
    if u < .5:
        return taus + [taus[0]]
    if u < .9:
        return np.array(taus)
    if float(rate) == 1.0:
        return np.array(ms)
    return [np.float64(t) for t in taus]


class Record(np.ndarray):
    """a subclass of the array type, as data frames and unit packages hand out"""


def container(ctx, x):
    """the same samples in another container (values unchanged)"""
    u = ctx.r.random()
    if u < .5:
        return x
    if u < .6 and isinstance(x, np.ndarray) and x.ndim == 1:
        k = ctx.r.randrange(4)
        if k == 0:
            return x.astype(x.dtype.newbyteorder(">"))
        if k == 1:
            return x.view(Record)
        if k == 2:
            return np.stack([x, -x, 0 * x], 1)[:, 0]
        return array.array("d", [float(v) for v in x])
    if u < .7:
        return list(x)
    if u < .78:
        return tuple(float(v) for v in x)
    if u < .86:
        y = np.zeros(2 * len(x))
        y[::2] = x
        return y[::2]
    if u < .93:
        y = x.copy()
        y.setflags(write=False)
        return y
    return x[::-1].copy()[::-1]
