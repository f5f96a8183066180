"""Reference lag-1 noise identification (Riley & Greenhall 2004) and power-law noise with known exponent."""
import numpy as np
L = np.longdouble


def poly_residual(x, deg):
    n = len(x)
    t = np.arange(n, dtype=L) * 2 / L(n - 1) - 1
    x = np.asarray(x).astype(L)
    Q = []
    for k in range(deg + 1):
        v = t ** k
        for _ in range(2):
            for q in Q:
                v = v - q * np.sum(q * v)
        Q.append(v / np.sqrt(np.sum(v * v)))
    for _ in range(2):
        for q in Q:
            x = x - q * np.sum(q * x)
    return x


def lag1(x):
    z = x - np.mean(x)
    return np.sum(z[:-1] * z[1:]) / np.sum(z * z)


def reduce(data, af, data_type):
    x = np.asarray(data).astype(L)
    if data_type == "phase":
        return poly_residual(x[::af], 2)
    k = len(x) // af
    return poly_residual(x[:k * af].reshape(k, af).mean(axis=1), 1)


def identify(data, af, data_type="phase", dmin=0, dmax=2):
    """(alpha_int, alpha, d, rho, margin): margin = distance of every decision from its boundary"""
    x = reduce(data, af, data_type)
    d, margin = 0, 1.0
    while True:
        r1 = lag1(x)
        rho = r1 / (1 + r1)
        if d >= dmin and d < dmax:
            margin = min(margin, abs(float(rho) - .25))
        if d >= dmin and (rho < .25 or d >= dmax):
            break
        x = np.diff(x)
        d += 1
    add = 2 if data_type == "phase" else 0
    alpha = -2 * (rho + d) + add
    q = float(2 * rho)
    margin = min(margin, abs(abs(q - np.floor(q)) - .5))
    return int(np.round(-q)) - 2 * d + add, float(alpha), d, float(rho), margin


def powerlaw(ctx, n, alpha, burn=None):
    """n phase samples whose frequency spectrum goes as f^alpha (unit white drive), via (1-z)^((alpha-2)/2)"""
    b = alpha - 2              # phase exponent
    burn = 0
    N = n
    h = np.ones(N)
    k = np.arange(1, N)
    h[1:] = np.cumprod((-b / 2.0 + k - 1) / k)
    w = ctx.rng.standard_normal(N)
    size = 1
    while size < 2 * N:
        size *= 2
    y = np.fft.irfft(np.fft.rfft(h, size) * np.fft.rfft(w, size), size)[:N]
    return y[:n]
