"""Equivalent degrees of freedom, written from the publications (Greenhall & Riley 2003; NIST SP1065 tables 5, 7, 8)."""
import math
from fractions import Fraction as Fr
import numpy as np
import scipy.special as sp

JMAX = 100
INF = float("inf")

# Greenhall-Riley Table 1 (modified), a0 and a1 by alpha, d
T1 = {(2, 1): (2 / 3., 1 / 3.), (2, 2): (7 / 9., 1 / 2.), (2, 3): (22 / 25., 2 / 3.),
      (1, 1): (.840, .345), (1, 2): (.997, .616), (1, 3): (1.141, .843),
      (0, 1): (1.079, .368), (0, 2): (1.033, .607), (0, 3): (1.184, .848),
      (-1, 2): (1.048, .534), (-1, 3): (1.180, .816),
      (-2, 2): (1.302, .535), (-2, 3): (1.175, .777),
      (-3, 3): (1.194, .703), (-4, 3): (1.489, .702)}
# Table 2 (unmodified)
T2 = {(2, 1): (3 / 2., 1 / 2.), (2, 2): (35 / 18., 1.), (2, 3): (231 / 100., 3 / 2.),
      (1, 1): (78.6, 25.2), (1, 2): (790., 410.), (1, 3): (9950., 6520.),
      (0, 1): (2 / 3., 1 / 6.), (0, 2): (2 / 3., 1 / 3.), (0, 3): (7 / 9., 1 / 2.),
      (-1, 2): (.852, .375), (-1, 3): (.997, .617),
      (-2, 2): (1.079, .368), (-2, 3): (1.033, .607),
      (-3, 3): (1.053, .553), (-4, 3): (1.302, .535)}
T3 = {1: (6., 4.), 2: (15.23, 12.), 3: (47.8, 40.)}
L = np.longdouble


def sw(t, alpha):
    t = np.abs(np.asarray(t, dtype=L))
    if alpha == 2:
        return -t
    if alpha in (1, -1, -3):
        k = {1: 2, -1: 4, -3: 6}[alpha]
        with np.errstate(all="ignore"):
            return np.where(t == 0, L(0), t ** k * np.log(np.where(t == 0, L(1), t)))
    if alpha in (0, -2, -4):
        return t ** {0: 3, -2: 5, -4: 7}[alpha]
    raise ValueError(alpha)


def sx(t, F, alpha):
    if F == INF:
        return sw(t, alpha + 2)
    F = L(F)
    return F * F * (2 * sw(t, alpha) - sw(t - 1 / F, alpha) - sw(t + 1 / F, alpha))


def sz(t, F, alpha, d):
    t = np.asarray(t, dtype=L)
    tot = L(0)
    for k in range(-d, d + 1):
        tot = tot + (-1) ** k * int(sp.comb(2 * d, d + k, exact=True)) * sx(t + k, F, alpha)
    return tot


def basic_sum(J, M, S, F, alpha, d):
    j = np.arange(1, int(J), dtype=L)
    out = sz(0, F, alpha, d) ** 2 + (1 - L(J) / L(M)) * sz(L(J) / L(S), F, alpha, d) ** 2
    if len(j):
        out = out + 2 * np.sum((1 - j / L(M)) * sz(j / L(S), F, alpha, d) ** 2)
    return out


def terms(d, m, N, overlapping, modified):
    F = 1 if modified else m
    S = m if overlapping else 1
    Lf = m // F + m * d if modified else 1 + m * d
    return F, S, 1 + (S * (N - Lf)) // m


def greenhall(alpha, d, m, N, overlapping, modified):
    """(edf, case) or (None, reason)"""
    F, S, M = terms(d, m, N, overlapping, modified)
    if M < 1:
        return None, "too short"
    J = min(M, (d + 1) * S)
    r = M / S
    if modified:
        if J <= JMAX:
            return float(sz(0, 1, alpha, d) ** 2 * M / basic_sum(J, M, S, 1, alpha, d)), "1.1"
        if r > d + 1:
            if (alpha, d) not in T1:
                return None, "table"
            a0, a1 = T1[alpha, d]
            return r / (a0 - a1 / r), "1.2"
        return float(sz(0, 1, alpha, d) ** 2 * JMAX / basic_sum(JMAX, JMAX, JMAX / r, 1, alpha, d)), "1.3"
    if alpha <= 0:
        if J <= JMAX:
            mp = m if m * (d + 1) <= JMAX else INF
            if mp == INF and alpha + 2 > 2:
                return None, "?"
            return float(sz(0, mp, alpha, d) ** 2 * M / basic_sum(J, M, S, mp, alpha, d)), "2.1" + ("b" if mp == INF else "a")
        if r > d + 1:
            a0, a1 = T2[alpha, d]
            return r / (a0 - a1 / r), "2.2"
        return float(sz(0, INF, alpha, d) ** 2 * JMAX / basic_sum(JMAX, JMAX, JMAX / r, INF, alpha, d)), "2.3"
    if alpha == 1:
        if J <= JMAX:
            return float(sz(0, m, 1, d) ** 2 * M / basic_sum(J, M, S, m, 1, d)), "3.1"
        b0, b1 = T3[d]
        if r > d + 1:
            a0, a1 = T2[1, d]
            return (b0 + b1 * math.log(m)) ** 2 * r / (a0 - a1 / r), "3.2"
        mp = JMAX / r
        return float(L(b0 + b1 * math.log(m)) ** 2 * JMAX / basic_sum(JMAX, JMAX, mp, mp, 1, d)), "3.3"
    K = math.ceil(r)
    if K <= d:
        return None, "K<=d"
    a0 = Fr(math.comb(4 * d, 2 * d), math.comb(2 * d, d) ** 2)
    return M / (float(a0) - d / 2. / r), "4.2"


def simple(N, m, alpha):
    """SP1065 table 5 (Stein)"""
    N, m = float(N), float(m)
    nan = float("nan")
    if alpha == 2:
        return (N + 1) * (N - 2 * m) / (2 * (N - m)) if N != m else nan
    if alpha == 1:
        p, q = (N - 1) / (2 * m), (2 * m + 1) * (N - 1) / 4
        if p <= 0 or q <= 0 or math.log(p) * math.log(q) < 0:
            return nan
        return math.exp(math.sqrt(math.log(p) * math.log(q)))
    if alpha == 0:
        return (3 * (N - 1) / (2 * m) - 2 * (N - 2) / N) * 4 * m * m / (4 * m * m + 5)
    if alpha == -1:
        return 2 * (N - 2) ** 2 / (2.3 * N - 4.9) if m == 1 else 5 * N * N / (4 * m * (N + 3 * m))
    if alpha == -2:
        return (N - 2) / m * ((N - 1) ** 2 - 3 * m * (N - 1) + 4 * m * m) / (N - 3) ** 2
    return N - 1


T7 = {0: (1.50, 0), -1: (1.17, .22), -2: (.93, .36)}
T8 = {2: (1.90, 2.10), 1: (1.20, 1.40), 0: (1.10, 1.20), -1: (.85, .50), -2: (.75, .31)}


def totdev(N, m, alpha):
    if alpha not in T7:
        return simple(N, m, alpha)
    b, c = T7[alpha]
    return b * N / m - c


def mtotdev(N, m, alpha):
    b, c = T8[alpha]
    return b * N / m - c


def limits(dev, edf, level):
    """equal-tailed chi-squared limits of a deviation"""
    if not edf > 0 or not math.isfinite(edf):
        return float("nan"), float("nan")
    p = (1 - level) / 2
    lo = 2 * sp.gammaincinv(edf / 2, p)        # chi-squared quantiles
    hi = 2 * sp.gammainccinv(edf / 2, p)
    with np.errstate(all="ignore"):
        return float(dev * np.sqrt(edf / hi)), float(dev * np.sqrt(edf / np.float64(lo)))
