import functools
import math
import numpy as np
from mon import gen
from mon.core import Family, Skip
from props import c17

SCALE = 1      # quick-tier multiplier of the family counts
RULE = ("A case is one Noise object whose reported PSD coefficients and predicted deviations are compared with the spectrum of its "
        "discrete filter and with numerical integrals of that spectrum through the transfer functions, or one set of generated "
        "series whose measured deviations are compared with the predictions. Non-trivial: distinct (variance, exponent, interval, tau).")
EVENTS = ["calls", "coefficients compared", "predictions compared", "scalings compared", "measured deviations"] + \
    ["predicted b=%d" % b for b in (0, -1, -2, -3, -4)]


def transfer(dev, u):
    """|H|^2 of the statistic as a function of u = f*tau"""
    p = np.pi * u
    s = np.sin(p)
    if dev == "adev":
        return 2 * s ** 4 / p ** 2
    if dev == "mdev":
        return 2 * s ** 6 / p ** 4
    q = 2 * s ** 2 - p * np.sin(2 * p)
    return 4.5 * q ** 2 / p ** 6


MEAN = {"adev": (2 * 3 / 8. / np.pi ** 2, 2), "mdev": (2 * 5 / 16. / np.pi ** 4, 4),
        "pdev": (4.5 * .5 / np.pi ** 4, 4)}       # mean of the oscillating numerator, power of u below it


@functools.lru_cache(None)
def integral(dev, a, top=None):
    """integral of u^a |H(u)|^2 over u from 0 to top (infinity: with the averaged tail)"""
    x, w = np.polynomial.legendre.leggauss(24)
    U = 4000 if top is None else top
    tot = 0.0
    # near zero: geometric intervals
    edges = [0.5 ** k for k in range(60, 0, -1)] + list(np.arange(1, math.ceil(2 * U)) / 2 + .5)
    edges = np.array([e for e in edges if e < U] + [U])
    mid, half = (edges[1:] + edges[:-1]) / 2, np.diff(edges) / 2
    u = mid[:, None] + half[:, None] * x
    tot = float(np.sum((u ** a * transfer(dev, u)) * w * half[:, None]))
    if top is None:
        c, p = MEAN[dev]
        e = a - p + 1
        if e >= 0:
            return math.inf
        tot += c * U ** e / -e
    return tot


def coefficients(ctx):
    at, r = ctx.at, ctx.r
    b = c17.exponent(ctx)
    qd = c17.variance(ctx)
    t0 = r.choice([1, 1.0, 10, .1, 2, 1 / 3., 86400, ctx.mag(-9, 6)])
    o = c17.new(ctx, r.choice([1, 2, 2, 4, 64, 4096]), qd, b)
    # the generated discrete process: S_x(f) = 2 tau0 qd |1-exp(-2 pi i f tau0)|^b
    f = 1e-5 / t0
    sx = 2 * t0 * float(qd) * (2 * math.sin(math.pi * f * t0)) ** float(b)
    g = sx / f ** float(b)
    ctx.say("Noise(qd=%.4g, b=%r) tau0=%r", qd, b, t0)
    got = ctx.call(o.phase_psd_from_qd, t0) if r.random() < .5 else ctx.call(o.phase_psd_from_qd, tau0=t0)
    ctx.near(float(got), g, 1e-7 * g, "phase_psd", "phase PSD coefficient")
    h = g * (2 * math.pi) ** 2
    got = ctx.call(o.frequency_psd_from_qd, tau0=t0)
    ctx.near(float(got), h, 1e-7 * h, "frequency_psd", "frequency PSD coefficient")
    if t0 == 1:
        ctx.near(float(ctx.call(o.phase_psd_from_qd)), g, 1e-7 * g, "phase_psd", "phase PSD coefficient at default interval")
        ctx.near(float(ctx.call(o.frequency_psd_from_qd)), h, 1e-7 * h, "frequency_psd", "frequency PSD coefficient at default interval")
    # the coefficients predict the spectrum of the series: exact discrete spectrum from the covariance of the impulse response
    ctx.obs("coefficients compared", 2)
    ctx.note("c", qd, float(b), t0)


def predictions(ctx):
    at, r = ctx.at, ctx.r
    b = [0, -1, -2, -3, -4][ctx.idx % 5]
    bb = r.choice([b, float(b), np.float64(b), np.int64(b)])
    qd = c17.variance(ctx)
    t0 = r.choice([1, 1.0, 10, .1, 2, 1 / 3., 86400, ctx.mag(-9, 6)])
    m = r.choice([1, 2, 3, 10, 16, 100, 1000, gen.length(ctx, 1, 100000)])
    if r.random() < .15:
        m = m + r.choice([.5, .25, r.random()])
    tau = m * t0
    o = c17.new(ctx, r.choice([1, 2, 4, 512]), qd, bb)
    a = b + 2
    h = 2 * float(qd) * (2 * math.pi) ** a * t0 ** (a - 1)
    ctx.say("Noise(qd=%.4g, b=%r) tau0=%r tau=%g*tau0", qd, bb, t0, m)
    for dev in ("adev", "mdev", "pdev"):
        # S_y = h f^a;  var = h tau^-(a+1) integral u^a |H|^2 du
        if dev == "adev" and b in (0, -1):
            # sampling bandwidth: u up to m/2
            if m > 2000:
                # beyond: sin^4 averages 3/8
                v = integral(dev, a, 1000.0)
                c = MEAN[dev][0]
                v += c * ((m / 2.0 - 1000) if b == 0 else math.log(m / 2000.0))
            else:
                v = integral(dev, a, m / 2.0)
            tol = 1e-6 if b == 0 else 3e-5
            # whole-number multiples of half the period sample the oscillating part at its mean
            if b == 0 and m != int(m):
                v = MEAN[dev][0] * m / 2.0
        else:
            v = integral(dev, a)
            tol = 2e-3
        lim = None
        if dev == "adev" and b == -1:
            # the long-averaging limit of the same integral: Euler's constant and the logarithm of the bandwidth
            lim = (3 * 0.5772156649015329 - math.log(2) + 3 * math.log(math.pi * m)) / (4 * math.pi ** 2) * h * float(tau) ** -(a + 1)
        v *= h * float(tau) ** -(a + 1)
        if dev == "pdev":
            c = {0: -3, -1: -2, -2: -1, -3: 0, -4: 1}[b]
            g = float(ctx.call(o.pdev_from_qd, t0, tau)) ** 2 * float(tau) ** c
            g2 = float(ctx.call(o.pdev_from_qd, tau0=t0)) ** 2 * float(tau) ** c
            ctx.near(g2, g, 1e-12 * g, "pdev", "pdev prefactor depends on tau")
        else:
            g = float(ctx.call(getattr(o, dev), t0, tau)) ** 2
            c = {"adev": {0: -2, -1: -2, -2: -1, -3: 0, -4: 1}, "mdev": {0: -3, -1: -2, -2: -1, -3: 0, -4: 1}}[dev][b]
            ctx.check(ctx.call(getattr(o, {"adev": "c_avar", "mdev": "c_mvar"}[dev])) == c, dev, "tau exponent")
            p = float(ctx.call(getattr(o, dev + "_from_qd"), tau0=t0, tau=tau))
            ctx.near(p * p * float(tau) ** c, g, 1e-10 * g, dev, "%s prefactor against the prediction" % dev)
            if dev == "mdev" or b != -1:
                p = float(ctx.call(getattr(o, dev + "_from_qd"), t0))
                ctx.near(p * p * float(tau) ** c, g, 1e-10 * g, dev, "%s prefactor depends on tau" % dev)
        if lim is not None:
            # the limit or the integral itself
            v = min(max(g, min(v, lim)), max(v, lim))
        ctx.near(g / v, 1.0, tol, dev, "predicted %s^2 of Noise(qd=%.4g, b=%r) at tau=%g*%r against the integral" % (dev, qd, bb, m, t0))
        ctx.obs("predictions compared")
    ctx.obs("predicted b=%d" % b)
    # at another sample interval the variances at the same number of intervals scale as its inverse square
    t1 = r.choice([1.0, 10.0, .1, 1 / 3., ctx.mag(-9, 6)])
    q = (float(t0) / t1) ** 2
    for dev in ("adev", "mdev"):
        x, y = float(ctx.call(getattr(o, dev), t0, tau)) ** 2, float(ctx.call(getattr(o, dev), t1, m * t1)) ** 2
        ctx.near(y, x * q, 1e-9 * y, "scaling", "%s^2 at interval %r against interval %r" % (dev, t1, t0))
    c = {0: -3, -1: -2, -2: -1, -3: 0, -4: 1}[b]
    x = float(ctx.call(o.pdev_from_qd, t0, tau)) ** 2 * float(tau) ** c
    y = float(ctx.call(o.pdev_from_qd, t1, m * t1)) ** 2 * (m * t1) ** c
    ctx.near(y, x * q, 1e-9 * y, "scaling", "pdev^2 at interval %r against interval %r" % (t1, t0))
    ctx.obs("scalings compared", 3)
    # scaling
    k = r.choice([4.0, 100.0, 1e-6, .25])
    o2 = c17.new(ctx, r.choice([1, 2, 4, 512]), float(qd) * k, bb)
    for fn, args, e in (("adev", (t0, tau), .5), ("mdev", (t0, tau), .5), ("pdev_from_qd", (t0, tau), .5), ("adev_from_qd", (t0, tau), .5),
                        ("mdev_from_qd", (t0, tau), .5), ("phase_psd_from_qd", (t0,), 1), ("frequency_psd_from_qd", (t0,), 1)):
        x, y = float(ctx.call(getattr(o, fn), *args)), float(ctx.call(getattr(o2, fn), *args))
        ctx.near(y, x * k ** e, 1e-10 * y, "scaling", "%s with %g times the variance" % (fn, k))
        ctx.obs("scalings compared")
    ctx.note("p", qd, b, t0, m)


def finite(dev, b, m):
    """expected variance of the discrete process over the long-averaging limit of the continuous spectrum"""
    f = (np.arange(200000) + .5) / 400000
    sx = np.sin(np.pi * f) ** b if b else np.ones(len(f))
    t = 8 * np.sin(np.pi * f * m) ** 4 / m ** 2
    if dev == "mdev":
        t = t * (np.sin(np.pi * m * f) / (m * np.sin(np.pi * f))) ** 2
    v = float(np.mean(sx * t)) * .5 * 2 * 2.0 ** b
    a = b + 2
    if dev == "oadev":
        w = integral("adev", a, m / 2.0) if b in (0, -1) else integral("adev", a)
    else:
        w = integral("mdev", a)
    return v / (2 * (2 * math.pi) ** a * float(m) ** -(a + 1) * w)


def measured(ctx):
    """average of measured variances of generated series"""
    at, r = ctx.at, ctx.r
    b = [0, -1, -2, -3, -4][ctx.idx % 5]
    dev = ["oadev", "mdev", "pdev"][(ctx.idx // 5) % 3]
    qd = c17.variance(ctx)
    t0 = r.choice([1.0, 10.0, .1, 2.0, 1 / 7., ctx.mag(-6, 4)])
    n = r.choice([512, 1024, 2048])
    ms = [8, 16, 32]
    K = 100 if not ctx.thorough else 300
    o = c17.new(ctx, n, qd, b)
    V = []
    for _ in range(K):
        x = c17.generate(ctx, o)
        t, d, e, nn = ctx.call(getattr(at, dev), x, rate=1 / t0, taus=[m * t0 for m in ms])
        ctx.check(len(t) == 3, "measured", "taus %s" % t)
        V.append(np.square(d))
    V = np.array(V)
    ctx.say("measured %s of Noise(%d, %.4g, %d) tau0=%r x%d", dev, n, qd, b, t0, K)
    for i, m in enumerate(ms):
        tau = m * t0
        if dev == "oadev":
            p = float(ctx.call(o.adev, t0, tau)) ** 2
        elif dev == "mdev":
            p = float(ctx.call(o.mdev, t0, tau)) ** 2
        else:
            c = {0: -3, -1: -2, -2: -1, -3: 0, -4: 1}[b]
            p = float(ctx.call(o.pdev_from_qd, t0, tau)) ** 2 * tau ** c
        q = float(np.mean(V[:, i])) / p
        s = float(np.std(V[:, i])) / p / math.sqrt(K)
        lim = .04
        if dev != "pdev":
            q /= finite(dev, b, m)
            lim = .015
        ctx.near(q, 1.0, lim + 6.5 * s, "measured", "average measured %s^2 over predicted at tau=%d*tau0 for Noise(%d, %.4g, b=%d, tau0=%r)" % (
            dev, m, n, qd, b, t0))
        ctx.obs("measured deviations", K)
    ctx.note("m", b, dev, n, ctx.idx)


FAMILIES = [Family(coefficients, 6000, 100000), Family(predictions, 6000, 100000), Family(measured, 60, 1500, timeout=120)]
