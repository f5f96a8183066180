import numpy as np
from mon import gen, ref, stat
from mon.core import Family, Skip
from props import definitional as _d
SCALE = 8      # quick-tier multiplier of the family counts
RULE = _d.RULE + (" mtie_phase_fast is compared level by level with the windows of 2^(k+1) samples; MTIE curves are checked "
                  "for monotonicity and rate independence.")
EVENTS = ["calls", "values compared well above rounding", "fast levels compared", "curves checked"]


def fast(ctx):
    N = gen.length(ctx, 4, 3000)
    x = gen.record(ctx, N)
    arg = gen.container(ctx, x)
    out = ctx.call(ctx.at.mtie_phase_fast, arg, rate=gen.rate(ctx))
    k_max = int(np.floor(np.log2(N)))
    P = 2 ** k_max
    ks = [k for k in range(k_max) if P - 2 ** (k + 1) + 1 > 1]
    t, d, e, n = [np.asarray(v) for v in out]
    ctx.check(len(t) == len(d) == len(e) == len(n) == len(ks), "shape", "mtie_phase_fast: %d levels, expected %d" % (len(t), len(ks)))
    ctx.nears(d, np.array([float(ref.mtie(ref.ld(x[:P]), 1, 2 ** (k + 1) - 1)[0]) for k in ks]),
              4 * ref.EPS * ref.amax(x), "value", "mtie_phase_fast N=%d" % N)
    ctx.check(list(n) == [P - 2 ** (k + 1) + 1 for k in ks], "count", "mtie_phase_fast counts", n=n)
    ratio = t[1:] / t[:-1]
    ctx.check(np.all(np.abs(ratio - 2) < 1e-9), "taus", "mtie_phase_fast levels are powers of two", t=t)
    ctx.obs("fast levels compared", len(ks))
    ctx.note("fast", x)


def curve(ctx):
    """all averaging times at once: monotone, rate only moves the axis, same as the window definition"""
    N = gen.length(ctx, 4, 260)
    x = gen.record(ctx, N)
    r1, r2 = gen.rate(ctx), gen.rate(ctx)
    a = ctx.call(ctx.at.mtie, x, rate=r1, taus="all")
    b = ctx.call(ctx.at.mtie, x, rate=r2, taus="all")
    ctx.check(len(a[0]) == len(b[0]), "rate", "number of averaging times depends on the rate", r1=r1, r2=r2)
    ctx.nears(a[1], b[1], 0, "rate", "mtie depends on rate")
    ctx.check(np.all(np.diff(a[1]) >= 0), "monotone", "mtie decreases with averaging time", devs=a[1])
    ctx.check(float(a[1][-1]) <= np.ptp(x) * (1 + 1e-15), "bound", "mtie exceeds the range of the record")
    stat.verify(ctx, "mtie", x, r1, "phase", range(1, N), None, a)
    t1 = ctx.call(ctx.at.tierms, x, rate=r1, taus="all")
    stat.verify(ctx, "tierms", x, r1, "phase", range(1, N), None, t1)
    ctx.obs("curves checked")


FAMILIES = _d.make(["mtie", "tierms"], slow=[]) + [Family(fast, 400, 8000), Family(curve, 300, 6000)]
