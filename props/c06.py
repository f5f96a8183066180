import numpy as np
from mon import gen, ref, stat
from mon.core import Family, Skip
from props.c05 import noise

SCALE = 10      # quick-tier multiplier of the family counts
RULE = ("A case is a group of executions of different statistics on one generated record that must coincide (factor one, "
        "decimated record, interleaved offsets, scaled statistics, special cases). Non-trivial: distinct record and relation "
        "with at least one value compared.")
EVENTS = ["calls", "relations compared", "relations well above rounding"]


def ask(ctx, name, x, rate, ms, **k):
    return ctx.call(getattr(ctx.at, name), x, rate=rate, data_type=k.pop("dt", "phase"), taus=np.array(ms) / float(rate), **k)


def same(ctx, rel, what, a, b, tol, n=True, err=True):
    ctx.check(len(a[1]) == len(b[1]), rel, "%s: %d against %d values" % (what, len(a[1]), len(b[1])))
    ctx.nears(a[0], b[0], 1e-12 * np.abs(b[0]), rel, what + " averaging times")
    ctx.nears(a[1], b[1], tol + 2e-10 * np.abs(b[1]), rel, what)
    if n:
        ctx.nears(a[3], b[3], 0, rel, what + " number of terms")
    if err:
        ctx.nears(a[2], b[2], tol + 1e-9 * np.abs(b[2]), rel, what + " error bars")
    ctx.obs("relations compared", len(a[1]))
    if np.any(np.abs(b[1]) > 100 * tol):
        ctx.obs("relations well above rounding")


def rec(ctx, lo, hi, far=0):
    N = gen.length(ctx, lo, hi, far)
    return N, gen.record(ctx, N), gen.rate(ctx)


def factor_one(ctx):
    N, x, rate = rec(ctx, 5, 900 if not ctx.thorough else 4000, 200000) if ctx.idx % 3 else rec(ctx, 5, 20000, 200000)
    dt = ctx.r.choice(["phase", "phase", "freq"])
    A = ref.amax(x) if dt == "phase" else ref.amax(np.cumsum(x - x.mean())) / float(rate)
    ref_ = ask(ctx, "oadev", x, rate, [1], dt=dt)
    for name in ("adev", "mdev", "pdev", "totdev"):
        same(ctx, "factor-one", name + " and oadev at factor 1", ask(ctx, name, x, rate, [1], dt=dt), ref_, 40 * N * ref.EPS * A * float(rate)
             if name == "mdev" else noise("oadev", N, A, rate, 1) * 2)
    h = ask(ctx, "ohdev", x, rate, [1], dt=dt)
    for name in ("hdev", "htotdev") if N <= 1000 or ctx.thorough and N <= 4000 else ("hdev",):
        same(ctx, "factor-one", name + " and ohdev at factor 1", ask(ctx, name, x, rate, [1], dt=dt), h, noise("ohdev", N, A, rate, 1) * 2)
    ctx.note("one", x)


def timelike(ctx):
    N, x, rate = rec(ctx, 8, 120 if ctx.idx % 2 else 3000, 0 if ctx.idx % 2 else 100000)
    pair = ("ttotdev", "mtotdev") if ctx.idx % 2 else ("tdev", "mdev")
    ms = gen.factors(ctx, stat.mmax("mdev", N), k=3 if ctx.idx % 2 else 7)
    dt = ctx.r.choice(["phase", "phase", "freq"])
    if dt == "freq":
        ms = [m for m in ms if m <= (N - 1) // 3] or [1]
    a, b = ask(ctx, pair[0], x, rate, ms, dt=dt), ask(ctx, pair[1], x, rate, ms, dt=dt)
    s = b[0] / np.sqrt(3)
    same(ctx, "tau-scaled", "%s = %s*tau/sqrt3" % pair, a, (b[0], b[1] * s, b[2] * s, b[3]), 1e-13 * np.max(np.abs(b[1] * s)))
    ctx.note(pair, x)


def decimated(ctx):
    name = ["adev", "hdev"][ctx.idx % 2]
    N, x, rate = rec(ctx, 10, 4000, 200000)
    for m in gen.factors(ctx, stat.mmax(name, N), k=5):
        a = ask(ctx, name, x, rate, [m])
        b = ask(ctx, name, x[::m], float(rate) / m, [1])
        ctx.check(len(a[0]) == len(b[0]) == 1, "decimated", "one value each")
        same(ctx, "decimated", "%s m=%d against decimated record (N=%d)" % (name, m, N), a, b, noise(name, N, ref.amax(x), rate, m) * 2)
    # frequency: a statistic of the record is that of its block averages
    y = x - x.mean()
    A = ref.amax(np.cumsum(y)) / float(rate) + ref.amax(x) * 1e-3 / float(rate)
    for m in gen.factors(ctx, stat.mmax(name, N), k=3):
        k = N // m * m
        a = ask(ctx, name, x, rate, [m], dt="freq")
        b = ask(ctx, name, x[:k].reshape(-1, m).mean(axis=1), float(rate) / m, [1], dt="freq")
        same(ctx, "decimated", "%s m=%d against block averages (N=%d)" % (name, m, N), a, b,
             noise(name, N, A, rate, m) * 4 + 40 * ref.EPS * ref.amax(x))
    ctx.note(name, x)


def offsets(ctx):
    pair = [("oadev", "adev", 4), ("ohdev", "hdev", 5)][ctx.idx % 2]
    N, x, rate = rec(ctx, 12, 700)
    m = min(ctx.r.choice(gen.factors(ctx, max(1, (N - 1) // pair[2]), k=4)), 60)
    o = ask(ctx, pair[0], x, rate, [m])
    tot, cnt = 0.0, 0
    for k in range(m):
        if len(range(0, N - k - (pair[2] - 2) * m, m)) < 2:
            raise Skip()
        a = ask(ctx, pair[1], x[k:], rate, [m])
        tot += float(a[1][0]) ** 2 * float(a[3][0])
        cnt += int(a[3][0])
    ctx.check(cnt == int(o[3][0]), "offsets", "%s m=%d N=%d: %d terms, the offsets have %d" % (pair[0], m, N, o[3][0], cnt))
    d = np.sqrt(tot / cnt)
    nz = noise(pair[0], N, ref.amax(x), rate, m)
    ctx.near(o[1][0], d, 2e-10 * d + 4 * nz, "offsets", "%s m=%d N=%d against the mean over %d offsets" % (pair[0], m, N, m))
    ctx.obs("relations compared")
    if d > 100 * nz:
        ctx.obs("relations well above rounding")
    ctx.note(pair, x)


def special(ctx):
    N, x, rate = rec(ctx, 6, 3000, 200000)
    ms = gen.factors(ctx, stat.mmax("oadev", N), k=6)
    dt = ctx.r.choice(["phase", "phase", "freq"])
    if dt == "freq":
        ms = [m for m in ms if m <= (N - 1) // 2]
    o = ask(ctx, "oadev", x, rate, ms, dt=dt)
    g = ctx.call(ctx.at.gcodev, x, x, rate=rate, data_type=dt, taus=np.array(ms) / float(rate))
    gr = ask(ctx, "gradev", x, rate, ms, dt=dt, noisetype=ctx.r.choice(["wp", "wf", "fp", "ff", "rf"]), ci=ctx.r.choice([.5, .683, .9, .95]))
    A = ref.amax(x) if dt == "phase" else ref.amax(np.cumsum(x - x.mean())) / float(rate)
    tol = 2 * noise("oadev", N, A, 1.0, 1) / np.asarray(o[0])
    same(ctx, "codeviation", "gcodev(x,x) and oadev", g, o, tol)
    same(ctx, "gapfree", "gradev and oadev without gaps", gr, o, tol, err=False)
    ctx.note("special", x)


def mtie_tie(ctx):
    N, x, rate = rec(ctx, 4, 1500)
    ms = gen.factors(ctx, N - 2, k=8)
    a, b = ask(ctx, "mtie", x, rate, ms), ask(ctx, "tierms", x, rate, ms)
    ctx.check(len(a[1]) == len(b[1]), "mtie-tierms", "lengths differ")
    ctx.check(np.all(a[1] >= b[1] * (1 - 1e-9) - 4 * ref.EPS * ref.amax(x)), "mtie-tierms", "MTIE below TIErms", mtie=a[1], tierms=b[1])
    ctx.nears(a[3], b[3], 0, "mtie-tierms", "counts")
    P = 2 ** int(np.floor(np.log2(N)))
    if P >= 4 and N <= 600:
        f = ctx.call(ctx.at.mtie_phase_fast, x[:P], rate=rate)
        g = ask(ctx, "mtie", x[:P], rate, [2 ** (k + 1) - 1 for k in range(len(f[1]))])
        ctx.nears(f[1], g[1], 4 * ref.EPS * ref.amax(x), "mtie-fast", "mtie_phase_fast and mtie")
    ctx.obs("relations compared", len(a[1]))
    ctx.note("mtie", x)


def hat(ctx):
    """three identical measurements: hat of statistic equals statistic/sqrt2 for A when ab = ca and bc = sqrt2... exact algebra"""
    N, x, rate = rec(ctx, 12, 800)
    name = ctx.r.choice(["adev", "oadev", "mdev", "hdev", "ohdev", "totdev", "tdev"])
    f = getattr(ctx.at, name)
    ms = gen.factors(ctx, stat.mmax(name, N), k=5)
    taus = np.array(ms) / float(rate)
    o = ctx.call(f, x, rate=rate, data_type="phase", taus=taus)
    t = ctx.call(ctx.at.three_cornered_hat_phase, x, x, x, rate, taus, f)
    same(ctx, "three-corner", "three_cornered_hat of identical records and %s" % name, (t[0], np.asarray(t[1]) * np.sqrt(2), np.asarray(t[2]), t[3]),
         o, 1e-300, err=False)
    z = ctx.call(ctx.at.three_cornered_hat_phase, x, x * 0, x, rate, taus, f)
    ctx.nears(z[1], o[1], 1e-10 * np.abs(o[1]), "three-corner", "three_cornered_hat with a silent BC pair and %s" % name)
    ctx.note("hat", x)


FAMILIES = [Family(factor_one, 500, 12000), Family(timelike, 700, 14000), Family(decimated, 800, 20000),
            Family(offsets, 500, 12000), Family(special, 800, 20000), Family(mtie_tie, 500, 10000), Family(hat, 500, 10000)]
