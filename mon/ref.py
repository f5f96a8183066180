"""Definitional reference models, evaluated in 80-bit extended precision with plain index arithmetic.

Every function takes phase x (longdouble array), rate and averaging factor m and returns (deviation, n, noise) where
`noise` bounds how far an ordinary float64 evaluation of the same sum may be from it for input of magnitude A=max|x|.
"""
import numpy as np
L = np.longdouble
EPS = np.finfo(np.float64).eps


def ld(x):
    return np.asarray(x).astype(L)


def amax(x):
    a = np.abs(np.asarray(x, dtype=float))
    a = a[np.isfinite(a)]
    return float(a.max()) if a.size else 0.0


def _rms(v, k):
    n = len(v)
    return np.sqrt(np.sum(v * v) / (L(k) * n)) if n else L(0)


def adev(x, rate, m):
    N = len(x)
    i = np.arange(0, max(0, N - 2 * m), m)
    v = x[i + 2 * m] - 2 * x[i + m] + x[i]
    s = L(rate) / m
    return _rms(v, 2) * s, len(i), 8 * EPS * amax(x) * float(s)


def oadev(x, rate, m):
    N = len(x)
    n = max(0, N - 2 * m)
    v = x[2 * m:] - 2 * x[m:m + n] + x[:n]
    s = L(rate) / m
    return _rms(v, 2) * s, n, 8 * EPS * amax(x) * float(s)


def hdev(x, rate, m):
    N = len(x)
    i = np.arange(0, max(0, N - 3 * m), m)
    v = x[i + 3 * m] - 3 * x[i + 2 * m] + 3 * x[i + m] - x[i]
    s = L(rate) / m
    return _rms(v, 6) * s, len(i), 16 * EPS * amax(x) * float(s)


def ohdev(x, rate, m):
    N = len(x)
    n = max(0, N - 3 * m)
    v = x[3 * m:] - 3 * x[2 * m:2 * m + n] + 3 * x[m:m + n] - x[:n]
    s = L(rate) / m
    return _rms(v, 6) * s, n, 16 * EPS * amax(x) * float(s)


def mdev(x, rate, m):
    """SP1065 eqn (14): phase averages over m samples"""
    N = len(x)
    n = N - 3 * m + 1
    if n < 1:
        return L(0), max(n, 0), 0.0
    c = np.concatenate(([L(0)], np.cumsum(x - x[0])))
    a = (c[m:] - c[:-m]) / m          # mean of x[i:i+m]
    v = a[2 * m:2 * m + n] - 2 * a[m:m + n] + a[:n]
    s = L(rate) / m
    A = amax(x)
    return _rms(v, 2) * s, n, (16 + 8 * N / m + 8 * m) * EPS * A * float(s)


def tdev(x, rate, m):
    d, n, e = mdev(x, rate, m)
    tau = L(m) / L(rate)
    return d * tau / np.sqrt(L(3)), n, e * float(tau)


def pdev(x, rate, m):
    """Vernotte: difference of least-squares slopes over adjacent windows of m samples"""
    if m == 1:
        return oadev(x, rate, m)
    N = len(x)
    M = N - 2 * m
    if M < 1:
        return L(0), max(M, 0), 0.0
    k = np.arange(m, dtype=L) - L(m - 1) / 2
    S = np.empty(M, dtype=L)
    z = x - x[0]
    w = np.concatenate((k, -k))
    if 2 * m * M <= 4_000_000:
        idx = np.arange(2 * m)
        for i0 in range(0, M, 4096):
            i1 = min(M, i0 + 4096)
            S[i0:i1] = z[(np.arange(i0, i1)[:, None] + idx[None, :])] @ w
    else:
        for i in range(M):
            S[i] = np.dot(z[i:i + 2 * m], w)
    tau = L(m) / L(rate)
    d = np.sqrt(72 * np.sum(S * S) / (L(M) * L(m) ** 4 * tau ** 2))
    # each term: 2m products of size <= m/2*A
    e = np.sqrt(72.0) * (m * m) * (8 + m) * EPS * amax(x) / (float(m) ** 2 * float(tau))
    return d, M, float(e)


def totdev(x, rate, m):
    """SP1065 eqn (25): reflected about both ends, N-2 terms"""
    N = len(x)

    def at(i):   # i: 0-based index, may run outside the record
        j = np.where(i < 0, -i, np.where(i > N - 1, 2 * (N - 1) - i, i))
        v = x[j]
        v = np.where(i < 0, 2 * x[0] - v, v)
        return np.where(i > N - 1, 2 * x[N - 1] - v, v)
    i = np.arange(1, N - 1)
    v = at(i - m) - 2 * x[i] + at(i + m)
    s = L(rate) / m
    return _rms(v, 2) * s, N - 2, 24 * EPS * amax(x) * float(s)


def _mean_terms(xe, m):
    """6m second differences of m-point means of the 9m-point extended sequences (rows)"""
    c = np.concatenate((np.zeros((xe.shape[0], 1), dtype=L), np.cumsum(xe, axis=1)), axis=1)
    a = (c[:, m:] - c[:, :-m]) / m
    j = np.arange(6 * m)
    return a[:, j] - 2 * a[:, j + m] + a[:, j + 2 * m]


def _blocks(x, m, detrend):
    N = len(x)
    n = N - 3 * m + 1
    w = np.arange(3 * m)
    step = max(1, 400_000 // (9 * m))
    tot = L(0)
    for i0 in range(0, n, step):
        i1 = min(n, i0 + step)
        xs = x[(np.arange(i0, i1)[:, None] + w[None, :])]
        xs = xs - xs[:, :1]
        k = (3 * m) // 2                       # points averaged at each end
        mean1 = xs[:, :k].mean(axis=1)
        mean2 = xs[:, 3 * m - k:].mean(axis=1)
        slope = (mean2 - mean1) / L(3 * m - k)  # distance between the two centres
        xs = xs - slope[:, None] * w[None, :]
        f = xs[:, ::-1]
        v = _mean_terms(np.concatenate((f, xs, f), axis=1), m)
        tot += np.sum(v * v)
    return tot / (6 * m), n


def mtotdev(x, rate, m):
    t, n = _blocks(x, m, True)
    tau = L(m) / L(rate)
    d = np.sqrt(t / (2 * n)) / tau
    return d, n, (64 + 24 * m) * EPS * amax(x) / float(tau)


def ttotdev(x, rate, m):
    d, n, e = mtotdev(x, rate, m)
    tau = L(m) / L(rate)
    return d * tau / np.sqrt(L(3)), n, e * float(tau)


def htotdev_freq(y, m):
    """SP1065 eqn (30), frequency data, m > 1"""
    t, n = _blocks(y, m, True)
    d = np.sqrt(t / (6 * n))
    return d, n, (64 + 24 * m) * EPS * amax(y)


def theo1(x, rate, m):
    """SP1065 eqn (30)/Howe-Peppler with the 0.75 normalisation the library documents"""
    N = len(x)
    h = m // 2
    n = N - m
    tau = L(m) / L(rate)
    tot = L(0)
    i = np.arange(n)
    for d in range(h):
        v = x[i] - x[i - d + h] + x[i + m] - x[i + d + h]
        tot += np.sum(v * v) / L(h - d)
    dev = np.sqrt(tot / (L(0.75) * n * tau * tau))
    e = np.sqrt(np.sum(1.0 / np.arange(1, h + 1)) / 0.75) * 8 * EPS * amax(x) / float(tau)
    return dev, n * h, float(e)


def mtie(x, rate, m):
    N = len(x)
    n = N - m
    w = m + 1
    # sliding extremes by doubling
    mx, mn, k = x.copy(), x.copy(), 1
    while 2 * k <= w:
        mx = np.maximum(mx[:-k], mx[k:])
        mn = np.minimum(mn[:-k], mn[k:])
        k *= 2
    o = w - k
    if o:
        mx = np.maximum(mx[:-o], mx[o:])
        mn = np.minimum(mn[:-o], mn[o:])
    return np.max(mx - mn), n, 2 * EPS * amax(x)


def tierms(x, rate, m):
    v = x[m:] - x[:-m]
    return np.sqrt(np.mean(v * v)), len(v), 4 * EPS * amax(x)


def freq2phase(y, rate):
    y = ld(y)
    ok = np.nonzero(~np.isnan(y))[0]
    y = y[ok[0]:ok[-1] + 1]
    y = y - np.mean(y[~np.isnan(y)])
    return np.concatenate(([L(0)], np.cumsum(y) / L(rate)))


def freq_noise(y, rate, m):
    """how far the float64 integral of y may be from the exact one, over a lag of 3m samples"""
    A = amax(y)
    y0 = np.asarray(y, dtype=float)
    y0 = y0[np.isfinite(y0)]
    P = float(np.max(np.abs(np.cumsum(y0 - y0.mean())))) if y0.size else 0.0
    return 12 * (m + 1) * EPS * (A + P + A) / float(rate)
