"""The monitor for one call of a deviation statistic: compares everything it returns with the reference model."""
import numpy as np
from mon import gen, ref

L = np.longdouble
REL = 1e-9

# name -> (reference, usable n for (N, m), largest m by request filter)
STATS = {
    "adev": (ref.adev, lambda N, m: len(range(0, max(0, N - 2 * m), m))),
    "oadev": (ref.oadev, lambda N, m: N - 2 * m),
    "mdev": (ref.mdev, lambda N, m: N - 3 * m + 1),
    "tdev": (ref.tdev, lambda N, m: N - 3 * m + 1),
    "pdev": (ref.pdev, lambda N, m: N - 2 * m),
    "hdev": (ref.hdev, lambda N, m: len(range(0, max(0, N - 3 * m), m))),
    "ohdev": (ref.ohdev, lambda N, m: N - 3 * m),
    "totdev": (ref.totdev, lambda N, m: N - 2),
    "mtotdev": (ref.mtotdev, lambda N, m: N - 3 * m + 1),
    "ttotdev": (ref.ttotdev, lambda N, m: N - 3 * m + 1),
    "htotdev": (None, lambda N, m: N - 3 if m == 1 else (N - 1) - 3 * m + 1),
    "theo1": (ref.theo1, lambda N, m: (N - m) * (m // 2) if m % 2 == 0 else 0),
    "mtie": (ref.mtie, lambda N, m: N - m),
    "tierms": (ref.tierms, lambda N, m: N - m),
}
PYCOST = {"pdev": lambda N, m: (N - 2 * m) * m, "theo1": lambda N, m: (N - m) * m / 2,
          "mtotdev": lambda N, m: (N - 3 * m) * 6 * m, "ttotdev": lambda N, m: (N - 3 * m) * 6 * m,
          "htotdev": lambda N, m: (N - 3 * m) * 6 * m if m > 1 else 0,
          "mtie": lambda N, m: (N - m) * m / 50.}
TIMELIKE = ("tdev", "ttotdev", "mtie", "tierms")


def mmax(name, N):
    """largest admissible averaging factor for a phase record of N samples (at least two terms)"""
    if name in ("mtotdev", "ttotdev"):
        return (N - 1) // 3
    if name == "htotdev":
        return max((N - 2) // 3, 0)
    if name in ("mdev", "tdev"):
        return (N - 1) // 3
    if name in ("oadev", "pdev"):
        return (N - 2) // 2
    if name == "adev":
        # need two strided terms: N-2m > m
        return (N - 1) // 3
    if name == "ohdev":
        return (N - 2) // 3
    if name == "hdev":
        return (N - 1) // 4
    if name == "totdev":
        return N - 1 if N >= 4 else 0
    if name == "theo1":
        k = N - 1 if (N - 1) % 2 == 0 else N - 2
        return k if N - k >= 1 and (N - k) * (k // 2) > 1 else k - 2
    return N - 2     # mtie, tierms


def reference(name, x, y, rate, m):
    """(dev, n, err, noise) of statistic `name`; x longdouble phase, y longdouble frequency (htotdev)"""
    if name == "htotdev":
        if m == 1:
            d, n, e = ref.ohdev(x, rate, 1)
        else:
            d, n, e = ref.htotdev_freq(y, m)
            e += (64 + 24 * m) * ref.EPS * ref.amax(x) * float(rate) * 2
    else:
        d, n, e = STATS[name][0](x, rate, m)
    if name == "theo1":
        err = d / np.sqrt(L(len(x) - m))
    elif name == "tierms":
        err = L(0)
    else:
        err = d / np.sqrt(L(n)) if n > 0 else L(0)
    return d, n, err, e


def verify(ctx, name, data, rate, data_type, ms, taus, out, tag="", rel=REL):
    """monitor: `out` was returned for the request of averaging factors `ms`"""
    base = np.asarray(data, dtype=np.float64)
    if data_type == "phase":
        x = ref.ld(base)
        y = np.diff(x) * L(rate)
    else:
        y = ref.ld(base)
        x = ref.freq2phase(y, rate)
        ok = np.nonzero(~np.isnan(y))[0]
        y = y[ok[0]:ok[-1] + 1]
    N = len(x)
    want = sorted(set(m for m in ms if 0 < m <= N - 1 and STATS[name][1](N, m) > 1 and _cap(name, N, m)))
    ctx.check(isinstance(out, tuple) and len(out) == 4, "shape", name + " returns four arrays", out=out)
    t, d, e, n = [np.asarray(v) for v in out]
    ctx.check(t.ndim == 1 and t.shape == d.shape == e.shape == n.shape, "shape",
              "%s: arrays of unequal length %s" % (name, [v.shape for v in (t, d, e, n)]))
    got = [int(round(float(v) * float(rate))) for v in t]
    ctx.check(got == want, "factors", "%s evaluated factors %s, expected %s (N=%d)" % (name, got[:40], want[:40], N))
    ctx.nears(t, np.array(want) / float(rate), 1e-12 * np.abs(np.array(want) / float(rate)), "taus",
              name + " averaging times")
    nz = None
    for i, m in enumerate(want):
        D, n_, E, noise = reference(name, x, y, rate, m)
        if data_type == "freq":
            extra = ref.freq_noise(np.asarray(y, dtype=float), rate, m)
            if name in ("mtie", "tierms"):
                extra = ref.freq_noise(np.asarray(y, dtype=float), rate, N)
            if name in ("tdev", "ttotdev"):
                extra *= 1
            elif name not in TIMELIKE:
                extra *= float(rate) / m
            noise = noise + extra + 8 * ref.EPS * ref.amax(y) * (1 if name == "htotdev" else 0)
        tol = rel * abs(float(D)) + noise + 1e-300
        if np.isnan(D):
            tol = 0.0
            ctx.obs("NaN results expected")
        w = "%s m=%d N=%d rate=%r %s%s" % (name, m, N, rate, data_type, tag)
        ctx.near(d[i], D, tol, "value", w)
        ctx.check(float(n[i]) == n_, "count", "%s: n=%s, expected %s" % (w, n[i], n_))
        ctx.near(e[i], E, (tol if np.isfinite(tol) else 0) / (np.sqrt(max(n_, 1)) if name != "theo1" else np.sqrt(N - m))
                 + 1e-12 * abs(float(E)) + 1e-300, "error", w + " error bar")
        if float(np.nan_to_num(D)) > 0:
            ctx.obs("terms of defining sums", int(n_))
        ctx.obs("values compared")
        if not np.isnan(D) and float(D) > 100 * noise:
            ctx.obs("values compared well above rounding")
    ctx.note(name, base, float(rate), data_type, tuple(want))
    return want


def _cap(name, N, m):
    if name in ("mtotdev", "ttotdev"):
        return m <= N / 3.0
    if name == "htotdev":
        return m <= (N - 1) / 3.0 and m < N - 1
    return True


def run(ctx, name, x, rate, data_type="phase", ms=None, cost=3e5, k=6, tag=""):
    """one monitored execution: choose factors, write the request, call, verify"""
    N = len(x) + (1 if data_type == "freq" else 0)
    top = mmax(name, N)
    if top < 1 or (name == "theo1" and top < 2):
        from mon.core import Skip
        raise Skip()
    if ms is None:
        ms = gen.factors(ctx, top, k=k)
        if name == "theo1":
            ms = sorted(set(max(2, m - m % 2) for m in ms))
    if name in PYCOST:
        c = 0
        keep = []
        for m in sorted(ms, key=lambda m: (PYCOST[name](N, m), ctx.r.random())):
            c += PYCOST[name](N, m)
            if c > cost:
                break
            keep.append(m)
        ms = sorted(keep)
        if not ms:
            from mon.core import Skip
            raise Skip()
    extra = []
    if ctx.r.random() < .3:
        extra = ctx.r.sample([N, N + 3, 10 * N, top + 1], 2)   # must be left out when too large
        if name in PYCOST:
            extra = [m for m in extra if m >= N]
    taus = gen.request(ctx, list(ms) + [m for m in extra], rate)
    ctx.say("%s %s rate=%r ms=%s%s", name, data_type, rate, list(ms), "+%s" % extra if extra else "")
    arg = gen.container(ctx, np.asarray(x))
    out = ctx.call(getattr(ctx.at, name), arg, rate=rate, data_type=data_type, taus=taus)
    return verify(ctx, name, x, rate, data_type, list(ms) + extra, taus, out, tag=tag)
