import math
from fractions import Fraction as Fr
import numpy as np
from mon.core import Family

SCALE = 2      # quick-tier multiplier of the family counts
RULE = ("Each case draws averaging times for one mask (log-uniform, one and several ulps from every boundary, round numbers, numbers "
        "new in the source; int, float and numpy scalar) and compares each returned limit with the recommendation's table evaluated "
        "in exact rational arithmetic; pairs are checked for monotonicity. Non-trivial: distinct (mask, averaging time).")
EVENTS = ["calls", "limits compared", "segment 0 limits", "segment 1 limits", "segment 2 limits", "segment 3 limits", "within 8 ulp of a boundary", "exactly at a boundary",
          "monotone pairs", "integer averaging times", "continuity at a boundary"]

F = Fr
# (upper boundary, constant, slope) in seconds; tables of the recommendations
NS, US = F(1, 10**9), F(1, 10**6)
T = {
    "prc_tdev": [(100, 3 * NS, 0), (1000, 0, F(3, 100) * NS), (None, 30 * NS, 0)],
    "prc_mtie": [(1000, F(25, 1000) * US, F(275, 10**6) * US), (None, F(29, 100) * US, F(1, 10**5) * US)],
    "eprtc_tdev": [(30000, NS, 0), (300000, 0, F("0.0000333333") * NS), (None, 10 * NS, 0)],
    "eprtc_mtie": [(1, 4 * NS, 0), (100, F("3.89") * NS, F("0.11114") * NS), (400000, 15 * NS, F("0.0000375") * NS), (None, 30 * NS, 0)],
    "prtcA_tdev": [(100, 3 * NS, 0), (1000, 0, F(3, 100) * NS), (None, 30 * NS, 0)],
    "prtcB_tdev": [(100, NS, 0), (500, 0, F(1, 100) * NS), (None, 5 * NS, 0)],
    "prtcA_mtie": [(273, F(25, 1000) * US, F(275, 10**6) * US), (None, F(1, 10) * US, 0)],
    "prtcB_mtie": [(F("54.5"), F(25, 1000) * US, F(275, 10**6) * US), (None, F(4, 100) * US, 0)],
}
NAMES = sorted(T)
# coefficients rounded in the publication; 3.33333e-5 stands for 1/30000, so a value with the unrounded coefficient is right too
ROUND = {"eprtc_tdev": 1.5e-6}


def bounds(name):
    return [float(b) for b, _, _ in T[name] if b is not None]


def segments(name, tau):
    """indices of the segments tau may belong to (both at a boundary)"""
    lo = 0
    t = F(float(tau))
    for i, (b, c, s) in enumerate(T[name]):
        if b is None or t <= b:
            if b is not None and t == b:
                return [i, i + 1]
            return [i]


def limit(name, i, tau):
    b, c, s = T[name][i]
    return c + s * F(float(tau))


def one(ctx, name, tau, what=""):
    v = ctx.call(getattr(ctx.at.mask, name), tau)
    ctx.check(isinstance(v, (int, float, np.floating)) and math.isfinite(v), "type", "%s(%r) = %r" % (name, tau, v))
    seg = segments(name, tau)
    refs = [limit(name, i, tau) for i in seg]
    rel = F(8 * 2.0 ** -53)
    ok = False
    for r in refs:
        tol = rel * r + (F(ROUND[name]) * r if name in ROUND and T[name][seg[0]][2] else 0)
        ok = ok or abs(F(float(v)) - r) <= tol
    ctx.obs("comparisons")
    ctx.check(ok, name, "%s(%r) = %.17g, the recommendation gives %s" % (name, tau, v, [float(r) for r in refs]))
    ctx.obs("limits compared")
    ctx.obs("segment %d limits" % seg[0])
    if len(seg) > 1:
        ctx.obs("exactly at a boundary")
        ctx.check(abs(refs[0] - refs[1]) <= refs[0] * F(1, 1000), "reference", "table discontinuous at %r" % tau)
        ctx.obs("continuity at a boundary")
    ctx.note(name, float(tau))
    return float(v)


def near(t, k):
    d = math.inf if k > 0 else 0.0
    for _ in range(abs(k)):
        t = math.nextafter(t, d)
    return t


def kinds(ctx, tau):
    r = ctx.r
    opts = [lambda: tau, lambda: np.float64(tau)]
    if tau == int(tau) and tau < 2**31:
        opts += [lambda: int(tau), lambda: np.int64(int(tau)), lambda: np.int32(int(tau))]
    v = r.choice(opts)()
    if isinstance(v, (int, np.integer)):
        ctx.obs("integer averaging times")
    return v


def edge(ctx):
    """every boundary of every mask, with the neighbouring floats"""
    name = NAMES[ctx.idx % len(NAMES)]
    for b in bounds(name):
        for k in list(range(-8, 9)) + [ctx.r.randint(-5000, 5000) for _ in range(4)]:
            one(ctx, name, near(b, k))
            if k:
                ctx.obs("within 8 ulp of a boundary")
        for w in (b, np.float64(b)):
            one(ctx, name, w)
        for d in (1e-12, 1e-9, 1e-6, 1e-3, 1e-2, .1, .5, .9):
            one(ctx, name, b * (1 - d))
            one(ctx, name, b * (1 + d))
        if b == int(b):
            for w in (int(b), np.int64(b), int(b) - 1, int(b) + 1, np.int32(b)):
                if w > 0:
                    one(ctx, name, w)
                    ctx.obs("integer averaging times")
            for w in np.arange(max(1, b - 40), b + 40):
                one(ctx, name, float(w))
    ctx.say("boundaries of %s", name)


def sweep(ctx):
    """one mask over a decade or the whole axis, in order"""
    r = ctx.r
    name = r.choice(NAMES)
    n = 2000 if not ctx.thorough else 20000
    if r.random() < .5:
        a = ctx.mag(-6, 8)
        taus = a * 10 ** ctx.rng.uniform(0, 1.0, n)
    else:
        taus = 10 ** ctx.rng.uniform(-9, 12, n)
    taus = list(taus)
    taus += [float(v) for v in (1, 2, 3, 5, 10, 20, 30, 50, 54, 55, 60, 100, 200, 272, 273, 274, 300, 499, 500, 501, 700, 999, 1000, 1001,
                                10000, 30000, 100000, 300000, 399999, 400000, 400001, 1000000, .1, .01, 1e-3, 1e-9, 1e9, 1e12, 86400)]
    for h in ctx.hot["floats"]:
        if 0 < abs(h) < 1e15:
            taus += [near(abs(h), k) for k in (-2, -1, 0, 1, 2)] + [abs(h) * 1.0000001, abs(h) * .9999999, abs(h) * 1.01, abs(h) * .99]
    taus += [float(r.randint(1, 10 ** r.randint(1, 6))) for _ in range(100)]
    taus.sort()
    last, lseg = None, None
    seen = {}
    for t in taus:
        w = kinds(ctx, t)
        v = one(ctx, name, w)
        s = segments(name, t)
        if len(s) == 1:
            if s[0] == lseg and last is not None:
                ctx.check(v >= last * (1 - 8 * 2.0 ** -53), "monotone", "%s decreases to %.17g at tau=%r from %.17g" % (name, v, t, last))
                ctx.obs("monotone pairs")
            last, lseg = v, s[0]
    ctx.say("sweep of %s from %g to %g", name, taus[0], taus[-1])


def history(ctx):
    """masks called in random order: a limit depends on nothing but mask and averaging time"""
    r = ctx.r
    seen = {}
    for _ in range(1500):
        name = r.choice(NAMES)
        b = bounds(name)
        t = r.choice([lambda: ctx.mag(-6, 7), lambda: float(r.randint(1, 1000000)), lambda: r.choice(b), lambda: near(r.choice(b), r.choice([-1, 1]))])()
        v = one(ctx, name, kinds(ctx, t))
        k = (name, t)
        if k in seen:
            ctx.check(seen[k] == v, "history", "%s(%r) gave %r, then %r" % (name, t, seen[k], v))
        seen[k] = v
    ctx.say("random calls of all masks")


def every_integer(ctx):
    """whole-second averaging times one by one"""
    name = NAMES[ctx.idx % len(NAMES)]
    start = 1 + 2500 * (ctx.idx // len(NAMES))
    for t in range(start, start + 2500):
        one(ctx, name, t)
        ctx.obs("integer averaging times")
    ctx.say("%s at %d..%d s", name, start, start + 2499)


FAMILIES = [
    Family(edge, 40, 400),
    Family(sweep, 240, 1500),
    Family(history, 80, 2000),
    Family(every_integer, 8 * 8, 8 * 180),
]
