import numpy as np
from mon import gen, ref, stat
from mon.core import Family, Skip
from props.c05 import noise, SLOW, ALL

L = np.longdouble
SCALE = 6      # quick-tier multiplier of the family counts
RULE = ("A case is a frequency record analysed directly and through its integrated phase (own extended-precision integral and "
        "the library's), a round trip through the converters, or a converter call against its linear formula. "
        "Non-trivial: distinct record/statistic with values compared.")
EVENTS = ["calls", "values compared", "round trips", "edge NaNs trimmed", "interior NaNs kept"]


def dual(ctx):
    name = ALL[ctx.idx % len(ALL)]
    base = "oadev" if name in ("gradev", "gcodev") else name
    N = gen.length(ctx, 8, SLOW.get(name, 3000 if name != "mtie" else 1500))
    y = gen.record(ctx, N, kinds=["white", "wfm", "sine", "step", "outlier", "quantised", "bigoffset", "drift+noise", "impulse", "const", "sorted", "plateaus", "mirror", "periodic", "dynamic"])
    rate = gen.rate(ctx)
    lead = trail = 0
    if ctx.r.random() < .35:
        lead, trail = ctx.r.choice([(0, 1), (1, 0), (3, 2), (0, 7), (5, 0)])
    yn = np.concatenate((np.full(lead, np.nan), y, np.full(trail, np.nan)))
    ms = gen.factors(ctx, stat.mmax(base, N + 1), k=3 if name in SLOW else 6)
    if name == "theo1":
        ms = sorted(set(max(2, m - m % 2) for m in ms))
    taus = ctx.r.choice([np.array(ms) / float(rate), list(np.array(ms) / float(rate))])
    kw = ctx.r.choice(["all", "octave", "decade", None]) if name not in SLOW or N < 30 else None
    if ctx.r.random() < .25 and (name not in SLOW or N < 30):
        taus = kw
    ctx.say("%s rate=%r NaN edges %d/%d ms=%s", name, rate, lead, trail, ms)
    ph = ref.freq2phase(y, rate)
    P = ref.amax(ph) * float(rate) + ref.amax(y)
    lib = ctx.call(ctx.at.frequency2phase, yn, rate)
    args = dict(rate=rate, taus=taus)
    x = np.asarray(ph, dtype=float)
    f = getattr(ctx.at, name)
    if name == "gcodev":
        y2 = gen._kind(ctx, N, "white") * (np.ptp(y) or 1.0)
        ph2 = ref.freq2phase(y2, rate)
        P += ref.amax(ph2) * float(rate) + ref.amax(y2)
        yn2 = np.concatenate((np.full(lead, np.nan), y2, np.full(trail, np.nan)))
        a = ctx.call(f, yn, yn2, data_type="freq", **args)
        b = ctx.call(f, x, np.asarray(ph2, dtype=float), data_type="phase", **args)
        c = b
    else:
        a = ctx.call(f, gen.container(ctx, yn), data_type="freq", **args)
        b = ctx.call(f, x, data_type="phase", **args)
        c = ctx.call(f, lib, data_type="phase", **args)
    for out, what in ((b, "exactly integrated phase"), (c, "frequency2phase output")):
        if what == "exactly integrated phase" and taus is None or isinstance(taus, str):
            pass
        ctx.check(len(a[0]) == len(out[0]), "dual", "%s: %d averaging times from frequency, %d from %s" % (name, len(a[0]), len(out[0]), what))
        for i in range(len(a[0])):
            m = int(round(float(a[0][i]) * float(rate)))
            ctx.check(a[0][i] == out[0][i], "dual", "averaging times differ")
            s = 1.0 if name not in stat.TIMELIKE else 1 / float(rate)
            nz = noise(name, N + 1, 4 * P, 1.0, m)
            if name in stat.TIMELIKE:
                nz = noise(name, N + 1, 4 * P, 1.0, m) * s
            nz += 48 * ref.EPS * P * ((N + 2) * s if name in ("mtie", "tierms") else s * m if name in stat.TIMELIKE else 1)
            d = float(out[1][i])
            if name == "gcodev":
                e = (float(ref.oadev(ph, rate, m)[0]) + float(ref.oadev(ph2, rate, m)[0]) + nz) * nz
                tol = max(np.sqrt(d * d + e) - d, d - np.sqrt(max(0, d * d - e)))
            else:
                tol = 2 * nz
            ctx.near(a[1][i], d, tol + 1e-9 * d + 1e-300, "dual", "%s m=%d frequency record against %s" % (name, m, what), rate=rate)
            ctx.check(a[3][i] == out[3][i], "dual", "%s m=%d: n %s from frequency, %s from %s" % (name, m, a[3][i], out[3][i], what))
            ctx.obs("values compared")
    ctx.note(name, y, rate)


def integrate(ctx):
    N = gen.length(ctx, 1, 100000 if ctx.idx % 10 == 0 else 3000, 3000000)
    y = gen.record(ctx, max(N, 1))
    N = len(y)
    rate = gen.rate(ctx)
    lead, trail = ctx.r.choice([(0, 0), (0, 0), (0, 2), (1, 0), (3, 4)])
    holes = []
    if N > 4 and ctx.r.random() < .3:
        holes = sorted(ctx.r.sample(range(1, N - 1), ctx.r.choice([1, 2])))
        y = y.copy()
        y[holes] = np.nan
    yn = np.concatenate((np.full(lead, np.nan), y, np.full(trail, np.nan)))
    ctx.say("integrate rate=%r edges=%d/%d holes=%s", rate, lead, trail, holes)
    p = np.asarray(ctx.call(ctx.at.frequency2phase, gen.container(ctx, yn), rate))
    ctx.check(p.shape == (N + 1,), "length", "integral of %d samples (+%d edge NaNs) has %s values" % (N, lead + trail, p.shape))
    want = ref.freq2phase(y, rate)
    A = ref.amax(y)
    W = np.asarray(want, dtype=float)
    P = ref.amax(W) + A / float(rate)
    tol = 8 * ref.EPS * (N + 2) * (P + A / float(rate))
    ctx.nears(p, W, tol, "integral", "frequency2phase(N=%d, rate=%r)" % (N, rate))
    if holes:
        ctx.check(np.all(np.isnan(p[holes[0] + 1:])) and not np.any(np.isnan(p[:holes[0] + 1])), "interior", "NaNs after an interior gap only")
        ctx.obs("interior NaNs kept")
    if lead + trail:
        ctx.obs("edge NaNs trimmed")
        tr = np.asarray(ctx.call(ctx.at.trim_data, yn))
        ctx.check(tr.shape == y.shape and np.array_equal(tr, y, equal_nan=True), "trim", "trim_data keeps exactly the inner part")
    back = np.asarray(ctx.call(ctx.at.phase2frequency, p, rate))
    ctx.check(back.shape == (N,), "length", "derivative length")
    ym = y - np.nanmean(y)
    if not holes:
        ctx.nears(back, ym, 16 * ref.EPS * (P * float(rate) + 2 * A), "roundtrip", "differentiate(integrate(y)) is y less its mean")
    ctx.obs("round trips")
    ctx.note("int", y, rate)


def differentiate(ctx):
    N = gen.length(ctx, 2, 100000 if ctx.idx % 10 == 0 else 3000, 3000000)
    x = gen.record(ctx, N)
    rate = gen.rate(ctx)
    y = np.asarray(ctx.call(ctx.at.phase2frequency, gen.container(ctx, x), rate))
    A = ref.amax(x)
    want = np.diff(ref.ld(x)) * L(rate)
    ctx.nears(y, np.asarray(want, dtype=float), 8 * ref.EPS * A * float(rate), "derivative", "phase2frequency")
    p = np.asarray(ctx.call(ctx.at.frequency2phase, y, rate))
    t = np.arange(N, dtype=L)
    xl = ref.ld(x)
    r = xl - xl[0] - t * (xl[-1] - xl[0]) / (N - 1)
    ctx.nears(p, np.asarray(r, dtype=float), 32 * ref.EPS * (N + 4) * (A + ref.amax(r)), "roundtrip",
              "integrate(differentiate(x)) is x less offset and end-to-end ramp")
    ctx.obs("round trips")
    ctx.note("diff", x, rate)


def convert(ctx):
    N = gen.length(ctx, 1, 3000)
    x = gen.record(ctx, N)
    v0 = ctx.r.choice([1.0, 10e6, 5e6, 9192631770, 4.29e14, 1, 32768.0, .5, gen.rate(ctx), -10e6, -2])
    a = np.asarray(ctx.call(ctx.at.phase2radians, gen.container(ctx, x), v0))
    w = np.asarray(2 * L("3.14159265358979323846264338327950288") * L(v0) * ref.ld(x), dtype=float)
    ctx.nears(a, w, 8 * ref.EPS * np.abs(w), "radians", "phase2radians")
    f0 = ctx.r.choice([10e6, 1.0, 5e6, 9192631770.0, 32768, 1e3, -10e6, -250.0, .02, gen.rate(ctx)])
    f = f0 * (1 + np.clip(x / (ref.amax(x) or 1.0), -1, 1) * ctx.r.choice([1e-3, 1e-6, 1e-9, .3]))
    mean = float(np.mean(f))
    b = np.asarray(ctx.call(ctx.at.frequency2fractional, gen.container(ctx, f)))
    fl = ref.ld(f)
    mu = fl.mean()
    ctx.nears(b, np.asarray((fl - mu) / mu, dtype=float), 16 * ref.EPS * 2, "fractional", "frequency2fractional, default mean")
    c = np.asarray(ctx.call(ctx.at.frequency2fractional, gen.container(ctx, f), mean_frequency=f0))
    ctx.nears(c, np.asarray((fl - L(f0)) / L(f0), dtype=float), 16 * ref.EPS, "fractional", "frequency2fractional, given nominal")
    f1 = f0 * ctx.r.choice([.7, 1.5, -1, 2, 1e-3, 1e3])    # a nominal far from the readings
    if f1 != -1:
        d = np.asarray(ctx.call(ctx.at.frequency2fractional, f, f1))
        w = np.asarray((fl - L(f1)) / L(f1), dtype=float)
        ctx.nears(d, w, 16 * ref.EPS * (np.abs(w) + 1), "fractional", "frequency2fractional, distant nominal")
    ctx.obs("values compared", 3 * N)
    ctx.note("conv", x, v0, f0, mean)


FAMILIES = [Family(dual, 3200, 60000), Family(integrate, 1500, 30000), Family(differentiate, 1000, 20000), Family(convert, 800, 16000)]
