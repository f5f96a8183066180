import functools
import math
import numpy as np
from scipy.special import gamma
from mon import gen
from mon.core import Family, Skip

SCALE = 3      # quick-tier multiplier of the family counts
RULE = ("A case is one deviation curve made of power-law segments (or one piecewise spectrum) given to the real conversion functions; "
        "monitors check segments, exponents, continuity at the breaks, levels against the closed-form Allan/Hadamard integral, the "
        "round trip, and every reconverted deviation against the monitor's own quadrature. Non-trivial: distinct (curve, grid, type).")
EVENTS = ["calls", "segments compared", "breaks compared", "round trips", "integrals compared", "refusals seen", "single power laws",
          "merged slopes", "whole-number spectra"]


@functools.lru_cache(100000)
def closed(mu, vt):
    """integral of sin^4(z)/z^(3+mu), or (4/3) sin^6(z)/z^(3+mu), from 0 to infinity"""
    def f(s):
        def c(a):
            return gamma(1 - s) * math.cos(math.pi * (1 - s) / 2) * a ** (s - 1)
        if vt == "adev":
            return (-4 * c(2.0) + c(4.0)) / 8
        return 4 / 3. * (-15 * c(2.0) + 6 * c(4.0) - c(6.0)) / 32
    s = 3 + mu
    d = s - round(s)
    if abs(d) < 2e-4 and 2 <= round(s) <= (4 if vt == "adev" else 6):
        # removable singularity: quadratic through neighbours
        e = 5e-4
        k = round(s)
        a, b = f(k - e), f(k + e)
        return (a + b) / 2 + (b - a) / (2 * e) * d
    return f(s)


GX, GW = np.polynomial.legendre.leggauss(16)


def piece(p, z1, z2):
    """integral of sin^4(z)/z^p from z1 to z2"""
    tot = 0.0

    def gl(e):
        mid, ha = (e[1:] + e[:-1]) / 2, np.diff(e) / 2
        z = mid[:, None] + ha[:, None] * GX
        return float(np.sum(np.sin(z) ** 4 / z ** p * GW * ha[:, None]))
    if z1 < np.pi:
        hi, lo = min(z2, np.pi), z1
        if lo < 1e-5 * hi:
            l2 = min(hi * 1e-3, 1e-4)
            l2 = max(l2, lo)
            # sin^4 z = z^4 (1 - 2 z^2/3)
            g = lambda z, q: z ** q / q if q != 0 else math.log(z)
            if lo == 0:
                tot += g(l2, 5 - p) - 2 / 3. * g(l2, 7 - p)
            else:
                tot += g(l2, 5 - p) - g(lo, 5 - p) - 2 / 3. * (g(l2, 7 - p) - g(lo, 7 - p))
            lo = l2
        if hi > lo:
            tot += gl(np.geomspace(lo, hi, 60))
    if z2 > np.pi:
        lo = max(z1, np.pi)
        # whole periods of the oscillation, then the mean value
        n = 400
        hi = min(z2, lo + n * np.pi)
        tot += gl(np.linspace(lo, hi, int((hi - lo) / (np.pi / 3)) + 2))
        if z2 > hi:
            a = 0.0 if not np.isfinite(z2) else (z2 ** (1 - p) if p != 1 else math.log(z2))
            b = hi ** (1 - p) if p != 1 else math.log(hi)
            tot += .375 * ((b - a) / (p - 1) if p != 1 else a - b)
            # leading oscillating terms at the cut
            w = lambda z: (-.5 * math.sin(2 * z) / 2 + math.sin(4 * z) / 32) / z ** p
            tot += (w(z2) if np.isfinite(z2) else 0) - w(hi)
    return tot


def avar(h, alpha, f, tau):
    e = np.concatenate([[0.0], f, [np.inf]]) * math.pi * tau
    return sum(2 * h[i] / (math.pi * tau) ** (alpha[i] + 1) * piece(2 - alpha[i], e[i], e[i + 1]) for i in range(len(h)))


def curve(ctx, vt, nseg, gap=1.2, limits=False):
    """(taus, deviation, slopes, corner taus)"""
    r = ctx.r
    top = 1.95 if vt == "adev" else 3.9
    near = [-2 + ctx.mag(-5.7, -1), (2 if vt == "adev" else 4) - ctx.mag(-5.7, -1)] if limits and r.random() < .2 else []
    close = r.random() < .4
    while True:
        mus = []
        while len(mus) < nseg:
            if close and mus and r.random() < .5:
                # a slope close to the preceding one (but well beyond the merging threshold)
                m = mus[-1] + r.choice([-1, 1]) * ctx.mag(-2, -.6)
                if -1.95 < m < top and mus[-1] not in near:
                    mus.append(m)
                    continue
            m = r.choice([-1.0, 0.0, 1.0, -.5, .5, ctx.val(-1.95, top), ctx.val(-1.95, top), ctx.val(-1.5, 1.5)] + near * 2)
            if not mus or abs(m - mus[-1]) > .25:
                mus.append(m)
        break
    t = ctx.mag(-4, 4)
    tt = [t]
    mu_of = []
    corners = []
    for i, m in enumerate(mus):
        k = r.choice([1, 1, 2, 3, 5, 8])
        span = ctx.mag(gap, gap + 1.5)
        st = r.random() < .5
        w = np.ones(k) if st else np.array([ctx.val(.3, 3) for _ in range(k)])
        w = w / w.sum() * math.log(span)
        for q in w:
            tt.append(tt[-1] * math.exp(q))
            mu_of.append(m)
        corners.append(tt[-1])
    tt = np.array(tt)
    lv = [2 * math.log(ctx.mag(-17, 2))]
    for i in range(1, len(tt)):
        lv.append(lv[-1] + mu_of[i - 1] * math.log(tt[i] / tt[i - 1]))
    return tt, np.exp(np.array(lv) / 2), mus, corners[:-1]


def arg(ctx, x):
    u = ctx.r.random()
    if u < .6:
        return np.array(x)
    if u < .8:
        return [v.item() if hasattr(v, "item") else v for v in x]
    return tuple(x)


def reconstruct(ctx):
    r, at = ctx.r, ctx.at
    vt = ["adev", "hdev"][ctx.idx % 2]
    nseg = r.choice([1, 1, 2, 2, 3, 4, 5, 8, 12])
    tt, dev, mus, corners = curve(ctx, vt, nseg, limits=True)
    a = (arg(ctx, dev), arg(ctx, tt))
    if vt == "adev" and r.random() < .4:
        out = ctx.call(at.adev2psd_piecewise_approx, *a)
    elif r.random() < .5:
        out = ctx.call(at.adev2psd_piecewise_approx, *a, vartype=r.choice([vt, vt.upper()]))
    else:
        out = ctx.call(at.adev2psd_piecewise_approx, *a, vt)
    ctx.say("%s curve of %d points, slopes %s", vt, len(tt), np.round(mus, 3))
    f, S, h, al = [np.asarray(v, dtype=float) for v in out]
    n = len(mus)
    if n == 1:
        ctx.obs("single power laws")
    if len(tt) > n + 1:
        ctx.obs("merged slopes")
    ctx.check(h.shape == (n,) and al.shape == (n,), "segments", "%d distinct slopes gave %d levels, %d exponents" % (n, h.size, al.size))
    ctx.check(f.shape == S.shape and (f.size == n - 1 or n == 1 and f.size in (0, 2)), "segments",
              "%d segments with %d breaks, %d break levels" % (n, f.size, S.size))
    ctx.nears(al, [-m - 1 for m in mus[::-1]], 1e-7, "exponents", "exponents")
    # level of every segment
    want = []
    for m in mus[::-1]:
        i = n - 1 - len(want)
        t0, d0 = (tt[0], dev[0]) if i == 0 else (corners[i - 1], None)
        if d0 is None:
            j = int(np.argmin(np.abs(tt - t0)))
            d0 = dev[j]
        B = 2 * math.log(d0) - m * math.log(t0)
        want.append(B - math.log(2 * closed(m, vt)) - m * math.log(math.pi))
    want = np.array(want)
    for i in range(n):
        ctx.near(math.log(h[i]), want[i], 2e-6 + 1e-13 * abs(want[i]), "level", "log level of segment %d of %d (slope %.4g)" % (i, n, mus[n - 1 - i]))
        ctx.obs("segments compared")
    if n > 1:
        la = np.array([-m - 1 for m in mus[::-1]])
        fl = -np.diff(want) / np.diff(la)
        for i in range(n - 1):
            ctx.near(math.log(f[i]), fl[i], 2e-5 + 5e-6 / abs(la[i + 1] - la[i]), "break", "log of break frequency %d" % i)
            s1, s2 = math.log(h[i]) + al[i] * math.log(f[i]), math.log(h[i + 1]) + al[i + 1] * math.log(f[i])
            ctx.near(s1, s2, 1e-8 * (1 + abs(s1)), "continuity", "log spectrum either side of break %d" % i)
            ctx.near(math.log(S[i]), s1, 1e-8 * (1 + abs(s1)), "Sy_nodes", "log spectrum reported at break %d" % i)
            ctx.obs("breaks compared")
        if np.all(np.diff(fl) > 1e-3):
            ctx.check(bool(np.all(np.diff(f) > 0)), "ascending", "break frequencies %s do not ascend" % f)
    else:
        ctx.check(bool(np.all(f > 0) and np.all(np.diff(f) > 0)), "ascending", "frequencies %s of a single segment do not ascend" % f)
        for i in range(f.size):
            ctx.near(math.log(S[i]), want[0] - (mus[0] + 1) * math.log(f[i]), 1e-5, "Sy_nodes", "spectrum at reported frequency %d" % i)
    ctx.note("c", tt, dev, vt)


def roundtrip(ctx):
    r, at = ctx.r, ctx.at
    nseg = r.choice([1, 2, 2, 3, 4])
    tt, dev, mus, corners = curve(ctx, "adev", nseg, 1.6)
    f, S, h, al = ctx.call(at.adev2psd_piecewise_approx, arg(ctx, dev), arg(ctx, tt))
    ctx.say("round trip of %d points, slopes %s", len(tt), np.round(mus, 3))
    if nseg == 1:
        nodes = r.choice([f, f[:0], []])
        new = ctx.call(at.psd_piecewise_to_adev, arg(ctx, h), arg(ctx, al), nodes, arg(ctx, tt))
        ctx.nears(new, dev, 1e-6 * dev, "roundtrip", "deviation of a single power law (slope %.4g) after the round trip" % mus[0])
        more = np.array([tt[0] * .01, tt[-1] * 30])
        new = ctx.call(at.psd_piecewise_to_adev, h, al, nodes, more)
        ref = dev[0] * (more / tt[0]) ** (mus[0] / 2)
        ctx.nears(new, ref, 1e-6 * ref, "roundtrip", "deviation of a single power law beyond the grid")
    else:
        if not np.all(np.diff(f) > 0):
            raise Skip()
        new = np.asarray(ctx.call(at.psd_piecewise_to_adev, h, al, f, tt))
        q = new / dev
        smooth = all(-1.3 <= m <= 1.3 for m in mus)
        ctx.check(bool(np.all(np.isfinite(q))), "roundtrip", "round trip gives %s" % new)
        if smooth:
            # breaks of the spectrum about 1/tau of the corners
            ctx.check(bool(np.all((q > .35) & (q < 2.5))), "roundtrip", "round trip changes the deviation by factors %s (slopes %s)" % (np.round(q, 3), mus))
    ctx.obs("round trips")
    ctx.note("r", tt, dev)


def integral(ctx):
    """psd_piecewise_to_adev of arbitrary piecewise spectra"""
    r, at = ctx.r, ctx.at
    n = r.choice([1, 2, 3, 3, 4, 6])
    al = [r.choice([0.0, -1.0, -2.0, .5, ctx.val(-2.9, .9), ctx.val(-2.9, .9)]) for _ in range(n)]
    if n > 2 and r.random() < .3:
        al[r.randrange(1, n - 1)] = r.choice([1.0, 2.0, 1.5, -3.0, -3.4])
    if al[-1] > .9:
        al[-1] = 0.0
    f = np.sort(10 ** np.array([ctx.val(-6, 4) for _ in range(n - 1)]))
    h = [ctx.mag(-28, 2)]
    for i in range(n - 1):
        h.append(h[-1] * f[i] ** (al[i] - al[i + 1]) * (1 if r.random() < .7 else ctx.val(.2, 5)))
    K = r.randint(1, 4)
    taus = np.array([r.choice([ctx.mag(-4, 5), (r.choice(list(f)) if n > 1 else 1.0) ** -1 * ctx.mag(-1.5, 1.5)]) for _ in range(K)])
    if r.random() < .2:
        taus = np.sort(taus)
    whole = n > 1 and max(al[1:-1] + [0]) <= .9 and r.random() < .15
    if whole:
        # whole numbers throughout, as a user types them
        al = [r.choice([0, -1, -2]) for _ in range(n)]
        f = np.array(sorted(r.sample(range(1, 60), n - 1)))
        h = [r.randint(1, 50) for _ in range(n)]
        taus = np.array([r.choice([1, 2, 3, 10, 100, 5000]) for _ in range(K)])
        ctx.obs("whole-number spectra")
    ctx.say("spectrum of %d segments %s at %d taus", n, np.round(al, 2), K)
    got = np.asarray(ctx.call(at.psd_piecewise_to_adev, arg(ctx, h), arg(ctx, al), arg(ctx, f), arg(ctx, taus)))
    ctx.check(got.shape == (K,), "shape", "%d deviations for %d averaging times" % (got.size, K))
    for i, t in enumerate(taus):
        w = avar(h, al, f, t)
        ctx.near(got[i] ** 2 / w, 1.0, 5e-5, "integral", "variance at tau=%.4g of spectrum alpha=%s f=%s" % (t, np.round(al, 3), f))
        ctx.obs("integrals compared")
    ctx.note("i", np.array(h), np.array(al), f, taus)


def merging(ctx):
    """slopes closer than mu_tol are one segment"""
    r, at = ctx.r, ctx.at
    mu = ctx.val(-1.5, 1.5)
    tol = r.choice([1e-5, 1e-3, .05, .2])
    n = r.randint(3, 12)
    tt = np.cumprod([ctx.mag(-2, 2)] + [ctx.val(1.5, 10) for _ in range(n - 1)])
    d = [2 * math.log(1e-12)]
    for i in range(1, n):
        d.append(d[-1] + (mu + ctx.val(-.49, .49) * tol) * math.log(tt[i] / tt[i - 1]))
    dev = np.exp(np.array(d) / 2)
    kw = {} if tol == 1e-5 and r.random() < .5 else dict(mu_tol=tol)
    ctx.say("%d slopes within %g", n - 1, tol)
    f, S, h, al = ctx.call(at.adev2psd_piecewise_approx, dev, tt, **kw)
    ctx.check(len(h) == 1 and len(al) == 1 and abs(al[0] + mu + 1) <= tol, "merge", "slopes within mu_tol gave %d segments" % len(h))
    # a change larger than the tolerance is kept
    d2 = list(d)
    m2 = mu + r.choice([1, -1]) * (1.5 * tol + r.choice([0, .3 * tol, .01, .1]))
    k = r.randint(2, n - 1)
    for i in range(k, n):
        d2[i] = d2[i - 1] + m2 * math.log(tt[i] / tt[i - 1])
    out = ctx.call(at.adev2psd_piecewise_approx, np.exp(np.array(d2) / 2), tt, **kw)
    ctx.check(len(out[2]) == 2 and len(out[0]) == 1, "merge", "two slopes %g and %g gave %d segments" % (mu, m2, len(out[2])))
    ctx.check(abs(out[3][0] + m2 + 1) < 1e-7, "merge", "exponents %s for slopes %g, %g" % (out[3], mu, m2))
    ctx.obs("merged slopes")
    ctx.note("m", tt, dev)


def refused(ctx):
    r, at = ctx.r, ctx.at
    vt = r.choice(["adev", "hdev"])
    tt, dev, mus, _ = curve(ctx, vt, r.choice([1, 2, 3, 3, 14, 40]))
    lim = {"adev": 2.0, "hdev": 4.0}[vt]
    vt = r.choice([vt, vt, vt.upper(), vt.title()])   # capitals are answered like lower case or refused
    A = at.adev2psd_piecewise_approx
    n = len(tt)
    k = r.choice(["order", "equal", "neg", "zero", "negtau", "len", "short", "steep", "flat", "type", "2d", "nan", "p-len", "p-nodes", "p-tau"])
    ctx.say("malformed: %s", k)
    t, d = tt.copy(), dev.copy()
    if k == "order":
        i = r.randrange(n - 1)
        t[[i, i + 1]] = t[[i + 1, i]]
        d[[i, i + 1]] = d[[i + 1, i]]
        ctx.refuses("order", "unordered taus", A, d, t, vt)
    elif k == "equal":
        i = r.randrange(n - 1)
        t[i + 1] = t[i]
        ctx.refuses("order", "repeated tau", A, d, t, vt)
    elif k in ("neg", "zero"):
        d[r.randrange(n)] *= -1 if k == "neg" else 0
        ctx.refuses("positive", "non-positive deviation", A, d, t, vt)
    elif k == "negtau":
        t[0] = r.choice([0, -1.0])
        ctx.refuses("positive", "non-positive tau", A, d, t, vt)
    elif k == "nan":
        v = r.choice([np.nan, np.inf])
        if r.random() < .7:
            d[r.randrange(n)] = v
        else:
            t[-1] = v
        ctx.refuses("nan", "NaN or infinite deviation or tau", A, d, t, vt)
    elif k == "len":
        ctx.refuses("length", "unequal lengths", A, d[:-1], t, vt) if r.random() < .5 else \
            ctx.refuses("length", "unequal lengths", A, d, t[1:], vt)
    elif k == "short":
        ctx.refuses("length", "one point", A, d[:1], t[:1], vt)
        ctx.refuses("length", "no points", A, d[:0], t[:0], vt)
    elif k in ("steep", "flat"):
        m = -2 - r.choice([.01, .1, 1, 3]) if k == "steep" else lim + r.choice([.01, .1, 1, 3])
        i = r.randrange(1, n)
        q = t / t[i - 1]
        q[:i] = 1
        q2 = d[i:] / d[i]
        d[i] = d[i - 1] * (t[i] / t[i - 1]) ** (m / 2)
        d[i:] = d[i] * q2
        ctx.refuses("convergence", "slope %g of a %s curve" % (m, vt), A, d, t, vt)
    elif k == "type":
        ctx.refuses("type", "unknown vartype", A, d, t, r.choice(["mdev", "tdev", "", "x"]))
    elif k == "2d":
        ctx.refuses("length", "two-dimensional input", A, np.array([d, d]), np.array([t, t]), vt)
    else:
        P = at.psd_piecewise_to_adev
        h, al, f = [1.0, 1.0, 1.0], [0.0, -1.0, -2.0], [1e-3, 1.0]
        if k == "p-len":
            ctx.refuses("segments", "inconsistent numbers of levels and exponents", P, h, al[:2] if r.random() < .5 else al + [-1.0], f, t)
        elif k == "p-nodes":
            ctx.refuses("segments", "inconsistent number of breaks", P, h, al, r.choice([f[:1], f + [3.0], []]), t)
        else:
            t[r.randrange(n)] = r.choice([0.0, -1.0, np.nan])
            ctx.refuses("positive", "non-positive tau", P, h, al, f, t)
    ctx.note("ref", k, ctx.idx)


FAMILIES = [Family(reconstruct, 8000, 80000), Family(roundtrip, 1500, 20000), Family(integral, 3000, 40000), Family(merging, 1500, 20000),
            Family(refused, 1500, 15000)]
