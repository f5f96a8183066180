"""Tests that recorded samples are independent Gaussian samples of a given variance (false-alarm probability of each
below about 1e-9)."""
import math
import numpy as np
from scipy import stats

P = 1e-10


def chi2_ok(ss, n, p=P):
    """ss = sum of n squared standard normal samples"""
    return stats.chi2.cdf(ss, n) > p and stats.chi2.sf(ss, n) > p


def check(ctx, w, var, key, what, fresh=True):
    """w: 1-d samples that should be iid N(0, var)"""
    w = np.asarray(w, dtype=float)
    n = len(w)
    ctx.check(bool(np.all(np.isfinite(w))), key, "%s: not finite" % what)
    z = w / math.sqrt(var)
    ctx.obs("samples whitened", n)
    ss = float(np.sum(z * z))
    ctx.check(chi2_ok(ss, n), key, "%s: variance of the %d recovered samples is %.6g of the implied one" % (what, n, ss / n))
    if n < 8:
        return
    m = float(np.sum(z)) / math.sqrt(n)
    ctx.check(abs(m) < 6.6, key, "%s: mean of the recovered samples is %.3g standard errors from zero" % (what, m))
    ctx.check(abs(m) > 1e-10, key, "%s: the recovered samples sum to zero" % what)
    a = float(np.sum(z[::2]) - np.sum(z[1::2])) / math.sqrt(n)
    ctx.check(1e-10 < abs(a) < 6.6, key, "%s: alternating sum of the recovered samples is %.3g standard errors" % (what, a))
    if fresh:
        ctx.check(float(np.min(np.abs(z))) * n > 1e-10, key, "%s: recovered sample %d is zero" % (what, int(np.argmin(np.abs(z)))))
    big = float(np.max(np.abs(z)))
    ctx.check(stats.norm.sf(big) * 2 * n > P, key, "%s: recovered sample %d is %.2f standard deviations out" % (
        what, int(np.argmax(np.abs(z))), big))
    if n >= 100:
        d, p = stats.kstest(z, "norm")
        ctx.check(p > P, key, "%s: recovered samples are not Gaussian of the implied variance (KS p=%.2g)" % (what, p))
        # kurtosis is more sensitive to mixtures of variances
        k = float(np.mean(z ** 4)) - 6 * float(np.mean(z ** 2)) + 3
        ctx.check(abs(k) < 9 * math.sqrt(24.0 / n) + 400.0 / n, key, "%s: fourth moment of recovered samples off (%.3g)" % (what, k))
        if fresh:
            u = len(np.unique(w))
            ctx.check(u >= n - 1, key, "%s: only %d of %d recovered samples are distinct" % (what, u, n))
        # parts of the record
        for a, b in parts(n):
            ctx.check(chi2_ok(float(np.sum(z[a:b] ** 2)), b - a, P / 10), key,
                      "%s: recovered samples %d..%d have variance %.4g of the implied one" % (what, a, b, float(np.mean(z[a:b] ** 2))))
    if n >= 16:
        size = 1
        while size < 2 * n:
            size *= 2
        f = np.fft.rfft(z, size)
        ac = np.fft.irfft(f * np.conj(f), size)[1:n - 1]
        k = np.arange(1, n - 1)
        q = np.abs(ac)
        # P(|sum of m products of independent normals| > t) < 2 exp(-t^2 / (2 m + 2.5 t))
        t2 = math.log(2 * n / P)
        lim = 1.25 * t2 + np.sqrt((1.25 * t2) ** 2 + 2 * (n - k) * t2)
        j = int(np.argmax(q / lim))
        ctx.check(q[j] <= 1.4 * lim[j], key, "%s: recovered samples correlate at lag %d (sum of products %.3g over %d terms)" % (
            what, j + 1, float(ac[j]), n - j - 1))
        m = n - 1
        z1 = float(ac[0]) / math.sqrt(m)
        ctx.check(abs(z1) < 7 + 40.0 / math.sqrt(m), key, "%s: lag-1 correlation of the recovered samples %.3g" % (what, float(ac[0]) / m))


def parts(n):
    out = set()
    w = 64
    while w < n:
        out.add((0, w))
        out.add((n - w, n))
        w *= 4
    for i in range(8):
        out.add((i * n // 8, (i + 1) * n // 8))
    return sorted(v for v in out if v[1] - v[0] >= 8)


def positions(ctx, W, var, key, what):
    """W: several generations (rows); every position has the implied variance and no correlation with the previous"""
    W = np.asarray(W, dtype=float) / math.sqrt(var)
    K, n = W.shape
    ss = np.sum(W * W, axis=0)
    lo, hi = stats.chi2.ppf(P / n, K), stats.chi2.isf(P / n, K)
    bad = np.where((ss < lo) | (ss > hi))[0]
    ctx.check(len(bad) == 0, key, "%s: position %s of %d has variance %.4g of the implied one over %d generations" % (
        what, bad[:3], n, float(ss[bad[0]] / K) if len(bad) else 0, K))
    ctx.obs("positions checked", n)


def modes(ctx, W, var, key, what):
    """W: several generations (rows): the sum, the ramp, the alternating sum and the slowest and fastest oscillations over
    each record have the variance of independent samples"""
    W = np.asarray(W, dtype=float) / math.sqrt(var)
    K, n = W.shape
    if n < 8:
        return
    t = np.arange(n)
    V = [("sum", np.ones(n)), ("ramp", t - (n - 1) / 2.0), ("alternating sum", (-1.0) ** t), ("difference of the halves", np.where(t < n // 2, 1.0, -1.0))]
    for k in (1, 2, 3, n // 4, n // 2 - 1):
        V.append(("cosine %d" % k, np.cos(2 * np.pi * k * t / n)))
        V.append(("sine %d" % k, np.sin(2 * np.pi * k * t / n)))
    V.append(("half cosine", np.cos(np.pi * (t + .5) / n)))
    for name, v in V:
        q = float(np.sum(v * v))
        if q < n * 1e-6:
            continue
        s = np.dot(W, v) / math.sqrt(q)
        ctx.check(chi2_ok(float(np.sum(s * s)), K), key, "%s: the %s over the record has %.4g times its variance over %d generations" % (
            what, name, float(np.mean(s * s)), K))
    ctx.obs("modes checked", len(V))
