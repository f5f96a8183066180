import math
import numpy as np
from mon import gen, ref, stat
from mon.core import Family, Skip

SCALE = 8      # quick-tier multiplier of the family counts
RULE = ("A case is a pair of executions of one statistic: on a generated record and on the same record after one to three "
        "transformations (phase offset, frequency offset, drift, scaling, negation, time reversal, other rate) that the "
        "statistic must ignore or follow. Non-trivial: both executions returned values, distinct by record, "
        "statistic and transformation.")
EVENTS = ["calls", "pairs compared", "pairs well above rounding"]

ALL = ["adev", "oadev", "mdev", "tdev", "pdev", "hdev", "ohdev", "totdev", "mtotdev", "ttotdev", "htotdev", "theo1",
       "mtie", "tierms", "gradev", "gcodev"]
RAMP = set(ALL) - {"mtie", "tierms"}
DRIFT = {"hdev", "ohdev", "htotdev"}
REV = {"oadev", "ohdev", "mdev", "tdev", "totdev", "mtotdev", "ttotdev", "htotdev", "theo1", "mtie", "tierms", "gradev",
       "gcodev"}
SLOW = {"pdev": 60, "theo1": 120, "mtotdev": 60, "ttotdev": 60, "htotdev": 60}


def noise(name, N, A, rate, m):
    """rounding allowance of one float64 evaluation for samples of magnitude A"""
    e = ref.EPS * A * float(rate) / m
    k = {"mdev": 16 + 8 * N / m + 8 * m, "mtotdev": 64 + 24 * m, "htotdev": (64 + 24 * m) * 3 * m,
         "pdev": 9 * (8 + m), "theo1": 8 * math.sqrt((1 + math.log(m)) / .75)}
    k["tdev"], k["ttotdev"] = k["mdev"], k["mtotdev"]
    v = k.get(name, 24) * e
    if name in stat.TIMELIKE:
        v *= m / float(rate)
    return v


def evaluate(ctx, name, x, rate, ms, dt="phase", x2=None):
    taus = np.array(ms) / float(rate)
    if name == "gcodev":
        return ctx.call(ctx.at.gcodev, x, x2, rate=rate, data_type=dt, taus=taus)
    return ctx.call(getattr(ctx.at, name), x, rate=rate, data_type=dt, taus=taus)


def case(ctx, big=False):
    r = ctx.r
    name = ALL[ctx.idx % len(ALL)]
    slow = name in SLOW
    if big and slow:
        raise Skip()
    base = "oadev" if name in ("gradev", "gcodev") else name
    N = gen.length(ctx, 8, SLOW.get(name, 200000 if big else 2000) * (4 if ctx.thorough and slow else 1))
    if base == "mtie":
        N = min(N, 4000)
    x = gen.record(ctx, N, kinds=gen.NOISY)
    A0 = float(np.ptp(x)) or 1.0
    x2 = None
    if name == "gcodev":
        x2 = gen._kind(ctx, N, r.choice(gen.NOISY)) * A0
    gaps = None
    if name == "gradev" and r.random() < .6:
        gaps = ctx.rng.random(N) < r.choice([.01, .1, .3])
        x = x.copy()
        x[gaps] = np.nan
        if np.isfinite(x).sum() < N // 2:
            raise Skip()
    top = stat.mmax(base, N)
    if top < 1 or (name == "theo1" and top < 2):
        raise Skip()
    ms = gen.factors(ctx, top, k=3 if slow else 6)
    if name == "theo1":
        ms = sorted(set(max(2, m - m % 2) for m in ms))
    rate = gen.rate(ctx)
    names = ["offset", "scale", "negate", "rate"]
    if name in RAMP:
        names += ["ramp", "ramp"]
    if name in DRIFT:
        names += ["drift", "drift"]
    if name in REV:
        names += ["reverse"]
    # cycle through the transformations so that each statistic meets each of them, alone and composed
    k = ctx.idx // len(ALL)
    todo = [names[k % len(names)]] + [r.choice(names) for _ in range(r.choice([0, 0, 1, 2]))]
    t = np.arange(N, dtype=float)
    z, z2, rate2, mul = x, x2, rate, 1.0
    tmul = 1.0
    Amax = ref.amax(x)
    Amax2 = ref.amax(x2) if x2 is not None else 0.0
    for T in todo:
        size = A0 * abs(mul) * r.choice([1e-3, 1, 10, 1e3, 1e5])
        if T == "offset":
            z = z + r.choice([-1, 1]) * size
            z2 = z2 - size if z2 is not None else None
        elif T == "ramp":
            z = z + r.choice([-1, 1]) * size * (t - r.choice([0, N / 2])) / N
            z2 = z2 + 3 * size * t / N if z2 is not None else None
        elif T == "drift":
            z = z + r.choice([-1, 1]) * size * (t / N) ** 2
        elif T == "scale":
            f = r.choice([2.0, .5, 3.0, -7.0, 1e-9, 1e6, 1 / 3., -1e-3, 2.0 ** -40, 1e12])
            z = z * f
            if z2 is not None:
                z2 = z2 * f
            mul *= f
        elif T == "negate":
            z = -z
            z2 = -z2 if z2 is not None else None
        elif T == "reverse":
            z = z[::-1]
            z2 = z2[::-1] if z2 is not None else None
        elif T == "rate":
            rate2 = gen.rate(ctx)
        Amax = max(Amax, ref.amax(z) / abs(mul))
        if z2 is not None:
            Amax2 = max(Amax2, ref.amax(z2) / abs(mul))
    ctx.say("%s transformations=%s rate=%r->%r factor=%g ms=%s", name, todo, rate, rate2, mul, ms)
    if name == "gradev" and not any(np.isfinite(x[2 * m:] + x[m:-m] + x[:-2 * m]).sum() > 1 for m in ms):
        raise Skip()
    a = evaluate(ctx, name, x, rate, ms, x2=x2)
    b = evaluate(ctx, name, z, rate2, ms, x2=z2)
    ratio = float(rate2) / float(rate)
    dm = abs(mul) * (1.0 if name in stat.TIMELIKE else ratio)
    key = "+".join(sorted(set(todo)))
    ctx.check(len(a[0]) == len(b[0]), key, "%s: %d averaging times before, %d after %s" % (name, len(a[0]), len(b[0]), todo))
    for i in range(len(a[0])):
        m = int(round(float(a[0][i]) * float(rate)))
        ctx.near(b[0][i], a[0][i] / ratio, 1e-12 * b[0][i], key, "%s averaging time after %s" % (name, todo))
        nz = noise(name if name in SLOW or name in ("mdev", "tdev") + stat.TIMELIKE else base, N, Amax + Amax2, rate, m)
        d0 = float(a[1][i])
        if name == "gcodev":
            # error of a product: |sqrt(u)-sqrt(u+e)| with e <= noise*(dev1+dev2)
            s1 = float(ref.oadev(ref.ld(x), rate, m)[0])
            s2 = float(ref.oadev(ref.ld(x2), rate, m)[0])
            e = (s1 + s2 + nz) * nz + 1e-12 * s1 * s2
            lo = math.sqrt(max(0.0, d0 * d0 - e))
            tol = max(math.sqrt(d0 * d0 + e) - d0, d0 - lo) + 1e-12 * d0
        else:
            tol = 2e-10 * d0 + 2 * nz
        ctx.near(b[1][i], d0 * dm, tol * dm + 1e-300, key,
                 "%s m=%d N=%d after %s" % (name, m, N, todo), rate=rate, rate2=rate2)
        ctx.check(a[3][i] == b[3][i], key, "%s n changed from %s to %s after %s" % (name, a[3][i], b[3][i], todo))
        if name == "gradev":
            for j in (0, 1):
                e0 = float(a[2][j][i])
                ctx.near(b[2][j][i], e0 * dm, (1e-9 * abs(e0) + 20 * tol) * dm + 1e-300, key, "gradev error after %s" % todo)
        else:
            e0 = float(a[2][i])
            ctx.near(b[2][i], e0 * dm, (1e-9 * e0 + tol) * dm + 1e-300, key, "%s error bar after %s" % (name, todo))
        ctx.obs("pairs compared")
        if d0 > 100 * nz:
            ctx.obs("pairs well above rounding")
    ctx.note(name, todo, x)


def large(ctx):
    case(ctx, big=True)


def freqrate(ctx):
    """frequency samples: rate moves averaging times only; time-like statistics follow the averaging time"""
    names = [n for n in ALL if n not in ("gcodev",)]
    name = names[ctx.idx % len(names)]
    N = gen.length(ctx, 9, SLOW.get(name, 1000))
    y = gen.record(ctx, N, kinds=["white", "wfm", "sine", "step", "outlier", "quantised", "sorted", "plateaus", "mirror", "periodic"])
    base = "oadev" if name == "gradev" else name
    top = stat.mmax(base, N + 1)
    ms = gen.factors(ctx, top, k=3 if name in SLOW else 5)
    if name == "theo1":
        ms = sorted(set(max(2, m - m % 2) for m in ms))
    r1, r2 = gen.rate(ctx), gen.rate(ctx)
    c = ctx.r.choice([1, -3, 100, 1e6]) * (float(np.ptp(y)) or 1.0)
    ctx.say("%s freq rate %r -> %r, mean +%g", name, r1, r2, c)
    a = evaluate(ctx, name, y, r1, ms, "freq")
    b = evaluate(ctx, name, y + c, r2, ms, "freq")
    q = float(r1) / float(r2) if name in stat.TIMELIKE else 1.0
    ctx.check(len(a[0]) == len(b[0]), "freq-rate", "different number of averaging times")
    P = float(np.max(np.abs(np.cumsum(y - y.mean())))) + abs(c) + ref.amax(y)
    for i in range(len(a[0])):
        m = int(round(float(a[0][i]) * float(r1)))
        nz = noise(name, N + 1, P * 4, 1.0, m)
        if name in stat.TIMELIKE:
            nz /= float(r1)
        nz += 24 * ref.EPS * (P + abs(c)) * ((N / float(r1)) if name in stat.TIMELIKE else 1)
        tol = (2e-10 * float(a[1][i]) + 3 * nz) * q + 1e-300
        ctx.near(b[1][i], float(a[1][i]) * q, tol, "freq-rate", "%s m=%d frequency input, other rate and mean" % (name, m),
                 r1=r1, r2=r2, c=c)
        ctx.check(a[3][i] == b[3][i], "freq-rate", "n changed")
        ctx.obs("pairs compared")
    ctx.note("f", name, y)


FAMILIES = [Family(case, 5000, 120000), Family(large, 320, 6000), Family(freqrate, 900, 20000)]
