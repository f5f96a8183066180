import math
import numpy as np
from scipy.interpolate import CubicSpline
from mon import gen
from mon.core import Family, Skip
from props import c18

SCALE = 3      # quick-tier multiplier of the family counts
RULE = ("A case is one or more conversions psd2allan of a one-sided spectrum by the real library: the averaging-time grid is compared "
        "with the documented one and every deviation with the monitor's own quadrature of the spline-interpolated spectrum through "
        "the transfer function; paired conversions check linearity, step/vector equivalence and change of frequency unit. "
        "Non-trivial: distinct (spectrum, step, kind, base).")
EVENTS = ["calls", "grids compared", "integrals compared", "sums compared", "representations compared", "units compared", "power laws compared"]

GX, GW = np.polynomial.legendre.leggauss(5)


def size(ctx, hi=3000):
    return gen.length(ctx, 4, hi, 130_000 if hi > 3000 else 0)


def step(ctx):
    r = ctx.r
    if r.random() < .15:
        return r.choice([1, 2, 10, np.int64(3)])
    if r.random() < .2:
        return r.choice([1.0, .1, .5, 1e-3])
    return float(ctx.mag(-6, 6)) if r.random() < .5 else float(gen.rate(ctx))


def spectrum(ctx, n, df):
    """positive spectrum, smooth on the scale of a few bins"""
    r, g = ctx.r, ctx.rng
    f = np.arange(n) * float(df)
    fm = f[-1]
    k = r.choice(["white", "power", "poly", "lorentz", "bumps", "rough", "cut", "ints"])
    if k == "white":
        s = np.ones(n)
    elif k == "power":
        a = r.choice([.5, 1, 2, 3, -1, -2])
        x = np.maximum(np.arange(n), 1.0)
        s = x ** a
    elif k == "poly":
        x = f / fm
        s = 1 + 3 * x + ctx.val(0, 5) * x ** 2
    elif k == "lorentz":
        s = 1 / (1 + (f / (fm * ctx.val(.05, .6))) ** 2)
    elif k == "bumps":
        s = .1 + np.sin(np.arange(n) / g.uniform(2, 30)) ** 2
    elif k == "rough":
        s = 1 + .5 * g.random(n)
    elif k == "cut":
        s = np.where(f < fm * ctx.val(.3, .9), 1.0, .2)
    else:
        s = (10 + np.arange(n) % 3)
        return (s if r.random() < .5 else s.astype(np.int32)), k
    sc = r.choice([1.0, 1e-24, 1e-30, 1e6, ctx.mag(-28, 4)])
    return s * sc, k


def allowed(n_pts, base):
    """(required, permitted) multiples of tau0 = 1/fmax"""
    n = (n_pts - 1) / 2.0
    if base > 1:
        last = {int(math.floor(n + .5 - 1e-9)), int(math.ceil(n - .5 + 1e-9))}
        req, per = set(), set(last)
        k = 0
        while base ** k <= n * (1 + 1e-9):
            v = float(base) ** k
            near = {int(np.round(v))} if abs(v - math.floor(v) - .5) > 1e-9 else {int(math.floor(v)), int(math.ceil(v))}
            per |= near
            if base ** (k + 1) <= n * (1 - 1e-9):
                req |= near if len(near) == 1 else set()
            k += 1
        return req, per, last
    m = set(range(1, int(math.ceil(n - 1e-9))))
    return m, m | {int(n)}, set()


def integrals(S, df, tau, kind):
    """Simpson sum on the quarter grid and an accurate integral of the spline through the transfer function"""
    n = len(S)
    S = np.asarray(S, dtype=float)
    cs = CubicSpline(np.arange(n) * 1.0, S)
    k = 1.0 if kind == "adev" else 2.0

    def h(f):
        p = np.pi * f * df * tau
        with np.errstate(all="ignore"):
            v = np.sin(p) ** (2 * k + 2) / p ** (2 * k)
        return np.where(p == 0, 0.0, v)
    f = np.arange(4 * (n - 1) + 1) / 4.0
    y = cs(f) * h(f)
    simp = 2 * df / 12.0 * (y[0] + y[-1] + 4 * np.sum(y[1::2]) + 2 * np.sum(y[2:-1:2]))
    e = np.arange(0, 4 * (n - 1) + 1) / 4.0
    mid, half = (e[1:] + e[:-1]) / 2, .125
    u = mid[:, None] + half * GX
    exact = 2 * df * float(np.sum(cs(u) * h(u) * GW)) * half
    return float(simp), exact


BASES = [2, 2, 2, 10, 1, 0, 1.5, 3, 4, 100, 1.1, 0.5, 2.0, 10.0]


def grid(ctx, taus, n, df, base, what):
    fm = (n - 1) * float(df)
    m = np.asarray(taus) * fm
    mi = np.round(m)
    ctx.check(np.ndim(taus) == 1 and len(m) > 0, "grid", "%s: averaging times %r" % (what, taus))
    ctx.check(bool(np.all(np.abs(m - mi) < 1e-6 * mi)), "grid", "%s: averaging times are not multiples of 1/fmax: %s" % (what, m[:10]))
    got = [int(v) for v in mi]
    ctx.check(got == sorted(set(got)), "grid", "%s: averaging factors %s not increasing" % (what, got[:12]))
    req, per, last = allowed(n, base)
    s = set(got)
    ctx.check(req <= s <= per and (not last or s & last), "grid", "%s: averaging factors %s, expected %s" % (what, got[:20], sorted(per)[:20]))
    ctx.obs("grids compared")
    return got


def kindarg(ctx, kind):
    r = ctx.r
    u = r.random()
    if kind == "adev" and u < .3:
        return {}
    return dict(kind=kind if r.random() < .8 else r.choice([kind.upper(), kind.title()]))


def integral(ctx):
    r, at = ctx.r, ctx.at
    base = r.choice(BASES)
    n = size(ctx, 4000 if base >= 2 else 3000 if base > 1.2 else 160)
    df = step(ctx)
    kind = r.choice(["adev", "mdev"])
    S, d = spectrum(ctx, n, df)
    kw = kindarg(ctx, kind)
    if base != 2 or r.random() < .5:
        kw["base"] = base
    vec = r.random() < .5
    if vec:
        fa = np.arange(n) * df
    else:
        fa = df
    what = "psd2allan(%s spectrum of %d points, df=%r%s, %s, base=%r)" % (d, n, df, " as vector" if vec else "", kind, base)
    ctx.say("%s", what)
    if not vec and df == 1 and r.random() < .5:
        taus, ad = ctx.call(at.psd2allan, S, **kw)
    elif r.random() < .5:
        taus, ad = ctx.call(at.psd2allan, S, fa, **kw)
    else:
        taus, ad = ctx.call(at.psd2allan, S, f=fa, **kw)
    ms = grid(ctx, taus, n, df, base, what)
    ctx.check(np.shape(ad) == np.shape(taus), "shape", "%s: %s deviations for %s averaging times" % (what, np.shape(ad), np.shape(taus)))
    pick = list(range(len(ms))) if len(ms) <= 12 else sorted(set([0, 1, len(ms) - 1, len(ms) - 2] + [r.randrange(len(ms)) for _ in range(6)]))
    mag = 2 * float(df) * float(np.sum(np.abs(S)))
    for i in pick:
        simp, exact = integrals(S, float(df), ms[i] / ((n - 1) * float(df)), kind)
        if not simp > 1e-9 * mag * 1e-3:
            continue
        g = float(ad[i]) ** 2
        ctx.obs("integrals compared")
        tol = 1e-7 * simp + 1e-13 * mag
        if abs(g - exact) <= 1e-5 * exact:
            continue
        ctx.near(g, simp, tol, "integral", "%s: variance at tau=%d/fmax (accurate integral %.8g)" % (what, ms[i], exact))
    ctx.note("i", np.asarray(S), df, kind, base)


def matched(a, b):
    """indices of equal averaging times"""
    out, j = [], 0
    for i, t in enumerate(a):
        j = int(np.argmin(np.abs(b - t)))
        if abs(b[j] - t) < 1e-9 * t:
            out.append((i, j))
    return out


def same(ctx, a, b, n, base, what):
    """grids of two equivalent requests agree but for rounding of the last points"""
    p = matched(a, b)
    req, per, last = allowed(n, base)
    ctx.check(len(p) >= len(req), "grid", "%s: averaging times differ: %s, %s" % (what, a[:10], b[:10]))
    return p


def relations(ctx):
    """linearity, vector/step, unit of frequency"""
    r, at = ctx.r, ctx.at
    base = r.choice(BASES)
    n = size(ctx, 1500 if base > 1.2 else 100)
    df = float(step(ctx))
    kind = r.choice(["adev", "mdev"])
    S1, d1 = spectrum(ctx, n, df)
    S2, d2 = spectrum(ctx, n, df)
    S1, S2 = S1 / np.mean(S1), S2 / np.mean(S2)
    c1, c2 = r.choice([1, 2, .5, 1e-20]), r.choice([1, 3, 1e-2])
    c2 *= c1
    kw = dict(kind=kind, base=base)
    ctx.say("relations %s+%s n=%d df=%r %s base=%r", d1, d2, n, df, kind, base)
    t1, a1 = ctx.call(at.psd2allan, S1, df, **kw)
    t2, a2 = ctx.call(at.psd2allan, S2, df, **kw)
    t3, a3 = ctx.call(at.psd2allan, c1 * S1 + c2 * S2, df, **kw)
    ctx.check(np.array_equal(t1, t2) and np.array_equal(t1, t3), "grid", "averaging times depend on the spectrum")
    ok = np.isfinite(a1) & np.isfinite(a2)
    want = c1 * np.square(a1) + c2 * np.square(a2)
    ctx.nears(np.square(a3)[ok], want[ok], 1e-9 * (c1 + c2) * float(df) * n * 1e-3 + 1e-8 * want[ok], "linear", "variance of a sum of spectra")
    ctx.obs("sums compared", int(np.sum(ok)))
    # vector
    tv, av = ctx.call(at.psd2allan, S1, np.arange(n) * df, **kw)
    for i, j in same(ctx, t1, tv, n, base, "step or vector"):
        ctx.near(av[j], a1[i], 1e-7 * abs(a1[i]), "vector", "deviation with a frequency vector instead of its step")
    lin = np.linspace(0, df * (n - 1), n)
    tv, av = ctx.call(at.psd2allan, S1, lin, **kw)
    for i, j in same(ctx, t1, tv, n, base, "step or vector"):
        ctx.near(av[j], a1[i], 1e-7 * abs(a1[i]), "vector", "deviation with a frequency vector instead of its step")
    ctx.obs("representations compared", 2)
    # new values in the same arrays
    S3, fv = S1.copy(), np.arange(n) * df
    ctx.call(at.psd2allan, S3, fv, **kw)
    S3 *= 4
    tv, av = ctx.call(at.psd2allan, S3, fv, **kw)
    for i, j in same(ctx, t1, tv, n, base, "spectrum changed in place"):
        ctx.near(av[j], 2 * a1[i], 1e-7 * abs(a1[i]), "linear", "deviation after the spectrum was multiplied by 4 in place")
    fv *= 2
    tv, av = ctx.call(at.psd2allan, S3, fv, **kw)
    for i, j in same(ctx, t1, 2 * np.asarray(tv), n, base, "frequencies changed in place"):
        ctx.near(av[j], math.sqrt(8) * a1[i], 1e-7 * abs(a1[i]), "unit", "deviation after the frequencies were doubled in place")
    # unit: f' = k f, S' = S/k  (per new unit): tau' = tau/k, variance the same
    k = r.choice([2.0, 10.0, .1, 1e3, 3.0, 1e-6])
    tk, ak = ctx.call(at.psd2allan, S1 / k, df * k, **kw)
    for i, j in same(ctx, t1, np.asarray(tk) * k, n, base, "unit of frequency"):
        ctx.near(ak[j], a1[i], 1e-7 * abs(a1[i]), "unit", "deviation after changing the frequency unit by %g" % k)
        ctx.obs("units compared")
    ctx.note("r", S1, S2, df, kind, base)


def powerlaws(ctx):
    """closed forms in the resolved range"""
    r, at = ctx.r, ctx.at
    a = r.choice([0, 0, 0, 1, 2, -1, -2])
    kind = r.choice(["adev", "mdev"])
    n = r.choice([1001, 2000, 4097, 3001])
    df = step(ctx)
    h = ctx.mag(-28, 3)
    f = np.arange(n) * float(df)
    x = f.copy()
    x[0] = x[1] if a < 0 else 0
    S = h * x ** a if a else np.full(n, h)
    ctx.say("power law f^%d n=%d df=%r %s", a, n, df, kind)
    taus, ad = ctx.call(at.psd2allan, S, df, kind=kind, base=2)
    for t, d in zip(taus, ad):
        m = t * f[-1]
        if m < 8 or t * float(df) > (.1 if a >= 0 else .02):
            continue
        m = int(round(m))
        v = h * t ** -(a + 1) * c18.integral(kind, a, float(m))
        ctx.near(d ** 2 / v, 1.0, .01 if a >= 0 else .12, "powerlaw", "variance from S=h f^%d at tau=%d/fmax against its closed form" % (a, m))
        if a == 0:
            c = .5 if kind == "adev" else .25
            ctx.near(d ** 2 / (c * h / t), 1.0, .01 + .2 / m, "powerlaw", "white FM variance at tau=%d/fmax" % m)
        ctx.obs("power laws compared")
    ctx.note("p", a, n, df, h, kind)


def refused(ctx):
    r, at = ctx.r, ctx.at
    S = np.ones(r.randint(5, 60))
    ctx.refuses("input", "frequency neither step nor vector", at.psd2allan, S, r.choice([None, [0, 1, 2], "x", {}]))
    ctx.note("ref", ctx.idx)


FAMILIES = [Family(integral, 4500, 50000), Family(relations, 2700, 30000), Family(powerlaws, 600, 6000), Family(refused, 20, 200)]
