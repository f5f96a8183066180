import math
import numpy as np
from scipy import stats
from mon import gen, whiteness
from mon.core import Family, Skip

SCALE = 2      # quick-tier multiplier of the family counts
RULE = ("A case is one or more series synthesised by timmer_koenig_from_psd from a piecewise power-law spectrum; the monitor divides "
        "the Fourier transform of the series by the amplitude the segment description requires at every bin of the documented grid "
        "and tests the quotients for independent unit Gaussians, bin by bin and over repeated seeds; paired calls check frequency "
        "output, level scaling and seeds. Non-trivial: distinct (segments, duration, time step, seed).")
EVENTS = ["calls", "samples whitened", "positions checked", "boundary bins", "derivatives compared", "levels compared", "seeds replayed",
          "refusals seen", "even lengths", "odd lengths", "segments entered"]


def grid(n, dt):
    return np.linspace(1.0 / ((n - 1) * dt), 1.0 / (2 * dt), n // 2 + 1)


def spectrum(ctx, fr, continuous=None):
    """random segments with breaks inside, outside and on the grid: nodes, h, alpha"""
    r = ctx.r
    k = r.choice([1, 1, 2, 3, 3, 4, 6])
    al = [r.choice([0.0, -1.0, -2.0, 1.0, 2.0, ctx.val(-3, 2.5), ctx.val(-2, 1)]) for _ in range(k)]
    lo, hi = math.log(fr[0]), math.log(fr[-1])
    nodes = []
    while len(nodes) < k - 1:
        u = r.random()
        if u < .25:
            v = float(r.choice(list(fr)))
        elif u < .4:
            v = math.exp(ctx.val(lo - 5, lo) if r.random() < .5 else ctx.val(hi, hi + 5))
        else:
            v = math.exp(ctx.val(lo, hi))
        if all(abs(v / w - 1) > 1e-6 for w in nodes):
            nodes.append(v)
    nodes = np.sort(np.array(nodes, dtype=float))
    h = [ctx.mag(-26, 2) / fr[len(fr) // 2] ** al[0]]
    cont = r.random() < .5 if continuous is None else continuous
    for i in range(k - 1):
        h.append(h[-1] * nodes[i] ** (al[i] - al[i + 1]) * (1 if cont else r.choice([30., 1 / 30., 4.])))
    return nodes, np.array(h), np.array(al)


def segment(f, nodes):
    return int(np.searchsorted(nodes, f, side="right"))


def wanted(nodes, h, al, n, dt):
    """S_x at bins 1..n//2 of the grid, and which bins lie on a break"""
    fr = grid(n, dt)
    s = np.array([h[segment(f, nodes)] * f ** (al[segment(f, nodes)] - 2) / (4 * np.pi ** 2) for f in fr[1:]])
    edge = np.array([any(abs(f / v - 1) < 1e-9 for v in nodes) for f in fr[1:]], dtype=bool)
    return fr[1:], s, edge


def lengths(ctx, hi=4000):
    """(n, duration, dt): whole number of samples, sometimes with a fraction"""
    r = ctx.r
    n = gen.length(ctx, 4, hi, 1_100_000 if hi >= 4000 else 0)
    dt = r.choice([1.0, .5, 2.0, .1, .25, 10.0, 1e-3, 1 / 3., 86400.0, 1, 5, ctx.mag(-6, 5)])
    D = (n + (r.choice([.25, .5, .9]) if r.random() < .4 else 1e-7)) * dt
    if float(dt) in (1.0, .5, 2.0, .25) and r.random() < .5:
        D = n * dt
    return n, D, dt


def synth(ctx, nodes, h, al, D, dt, **kw):
    at, r = ctx.at, ctx.r
    from allantools import noise
    f = r.choice([at.timmer_koenig_from_psd, noise.timmer_koenig_from_psd])
    if r.random() < .3:
        nodes, h, al = list(nodes), list(h), list(al)
    if len(h) == 1 and r.random() < .3:
        nodes = np.array([1e-3, 1.0])
    if r.random() < .5:
        x = ctx.call(f, nodes, h, al, D, dt, **kw)
    else:
        x = ctx.call(f, f_nodes=nodes, h=h, alpha=al, duration=D, timestep=dt, **kw)
    ctx.check(isinstance(x, np.ndarray) and x.dtype == float and x.ndim == 1, "shape", "synthesis returned %r" % type(x))
    return x


def quotients(ctx, x, nodes, h, al, n, dt):
    """unit Gaussians (re, im) per usable bin"""
    fr, s, edge = wanted(nodes, h, al, n, float(dt))
    X = np.fft.fft(x)
    Z = X[1:n // 2 + 1] / (np.sqrt(s) / 2 * math.sqrt((n - 1) / float(dt)))
    amp = np.sqrt(s)
    floor = 1e-13 * np.sqrt(np.sum(s)) * 10
    ok = (amp * 1e-4 > floor) & ~edge
    # numerical zero mean
    ctx.check(abs(X[0]) <= 1e-10 * float(np.sum(np.abs(x))) + 1e-300, "mean", "mean %g of a series of rms %g" % (X[0].real / n, np.std(x)))
    return Z, ok, edge, fr


def bins(ctx):
    r = ctx.r
    n, D, dt = lengths(ctx)
    fr = grid(n, float(dt))
    nodes, h, al = spectrum(ctx, fr)
    K = r.choice([1, 2, 3]) if n > 300 else 20
    ctx.say("%d segments alpha=%s, n=%d dt=%r x%d", len(h), np.round(al, 2), n, dt, K)
    ctx.obs("odd lengths" if n % 2 else "even lengths")
    ctx.obs("segments entered", len(set(segment(f, nodes) for f in fr[1:])))
    W = []
    for _ in range(K):
        kw = dict(seed=r.getrandbits(31)) if r.random() < .7 else {}
        if r.random() < .3:
            kw["output"] = "phase"
        x = synth(ctx, nodes, h, al, D, dt, **kw)
        ctx.check(len(x) == n, "length", "duration %r at time step %r gave %d samples" % (D, dt, len(x)))
        Z, ok, edge, _ = quotients(ctx, x, nodes, h, al, n, dt)
        re, im = Z.real[ok], Z.imag[ok]
        if n % 2 == 0 and ok[-1]:
            im = im[:-1]
        W += [re, im]
    w = np.concatenate(W)
    if len(w) >= 2:
        whiteness.check(ctx, w, 1.0, "spectrum", "amplitudes over sqrt of the given spectrum, alpha=%s, breaks %s, n=%d, dt=%r" % (
            np.round(al, 3), nodes, n, dt), fresh=False)
    ctx.note("b", nodes, h, al, n, dt, ctx.idx)


def everybin(ctx):
    """each single bin over many seeds, including bins exactly on a break"""
    r = ctx.r
    n = r.choice([4, 5, 6, 7, 8, 9, 9, 12, 15, 16, 17, 17, 32, 33, 33, 64, 65, 101])
    dt = r.choice([1.0, 1.0, .5, .1, 10.0, 1 / 3., ctx.mag(-4, 4)])
    D = (n + .3) * dt
    fr = grid(n, dt)
    nodes, h, al = spectrum(ctx, fr)
    K = 200
    ctx.say("every bin: %d segments alpha=%s, n=%d dt=%r x%d", len(h), np.round(al, 2), n, dt, K)
    re, im = [], []
    for _ in range(K):
        x = synth(ctx, nodes, h, al, D, dt, **(dict(seed=r.getrandbits(31)) if r.random() < .5 else {}))
        ctx.check(len(x) == n, "length", "duration %r at time step %r gave %d samples" % (D, dt, len(x)))
        Z, ok, edge, f = quotients(ctx, x, nodes, h, al, n, dt)
        re.append(Z.real)
        im.append(Z.imag)
    re, im = np.array(re), np.array(im)
    what = "alpha=%s, breaks %s, n=%d, dt=%r" % (np.round(al, 3), nodes, n, dt)
    if ok.any():
        whiteness.positions(ctx, re[:, ok], 1.0, "spectrum", what)
        j = ok.copy()
        if n % 2 == 0:
            j[-1] = False
        if j.any():
            whiteness.positions(ctx, im[:, j], 1.0, "spectrum", what)
    for b in np.where(edge)[0]:
        # a bin exactly on a break belongs to the segment above it; where rounding may move the bin, either is right
        k = int(np.argmin(np.abs(nodes / f[b] - 1)))
        s0 = h[segment(f[b], nodes)] * f[b] ** al[segment(f[b], nodes)]
        good = False
        exact = n in (5, 9, 17, 33, 65) and math.frexp(dt)[0] == .5 and f[b] == nodes[k]
        for q in (k + 1,) if exact else (k, k + 1):
            s = h[q] * f[b] ** al[q]
            good = good or whiteness.chi2_ok(float(np.sum(re[:, b] ** 2)) * s0 / s, K)
        ctx.check(good, "break", "bin at break %g has power %.4g of the upper segment's (%s)" % (f[b], float(np.mean(re[:, b] ** 2)), what))
        ctx.obs("boundary bins")
    ctx.note("e", nodes, h, al, n, dt, ctx.idx)


def paired(ctx):
    r = ctx.r
    n, D, dt = lengths(ctx, 1000)
    nodes, h, al = spectrum(ctx, grid(n, float(dt)))
    s = r.choice([0, 0, 1, 2 ** 32 - 2, np.int64(7)]) if r.random() < .2 else r.getrandbits(31)
    ctx.say("paired: %d segments, n=%d dt=%r seed=%d", len(h), n, dt, s)
    x = synth(ctx, nodes, h, al, D, dt, seed=s)
    np.random.randn(3)
    y = synth(ctx, nodes, h, al, D, dt, output="freq", seed=s)
    x2 = synth(ctx, nodes, h, al, D, dt, output="phase", seed=s)
    ctx.check(np.array_equal(x, x2), "seed", "the same seed gave another series")
    ctx.obs("seeds replayed")
    ctx.check(len(y) == len(x), "freq", "frequency output has %d samples, phase %d" % (len(y), len(x)))
    w = np.diff(x) / float(dt)
    tol = 1e-12 * float(np.max(np.abs(x))) / float(dt)
    ctx.nears(y[1:], w, tol, "freq", "frequency output against the derivative of the phase")
    ctx.check(y[0] == 0, "freq", "first frequency sample %g" % y[0])
    ctx.obs("derivatives compared")
    c = r.choice([4.0, .25, 1e-6, 2.0, 100.0])
    x3 = synth(ctx, nodes, c * h, al, D, dt, seed=s)
    ctx.nears(x3, math.sqrt(c) * x, 1e-11 * math.sqrt(c) * float(np.max(np.abs(x))), "level", "series with the level times %g" % c)
    ctx.obs("levels compared")
    for s4 in {int(s) ^ (1 << r.randrange(32)), int(s) + 1} - {2 ** 32}:
        x4 = synth(ctx, nodes, h, al, D, dt, seed=s4)
        ctx.check(not np.allclose(x4, x, rtol=1e-6, atol=0), "seed", "seed %d gave the same series as seed %d" % (s4, s))
    a, b = synth(ctx, nodes, h, al, D, dt), synth(ctx, nodes, h, al, D, dt, seed=None)
    ctx.check(not np.allclose(a, b, rtol=1e-6, atol=0), "seed", "two unseeded series are the same")
    np.random.seed(s)
    a = synth(ctx, nodes, h, al, D, dt)
    np.random.seed(s)
    b = synth(ctx, nodes, h, al, D, dt)
    ctx.check(np.array_equal(a, b), "seed", "seeding the process-wide generator does not reproduce the series")
    ctx.note("p", nodes, h, al, n, dt, s)


def count(ctx):
    """number of samples for durations users write"""
    r = ctx.r
    dt = r.choice([.1, .2, .3, .7, 1e-3, 1 / 3., 1.1, 60, 1, .01])
    n = gen.length(ctx, 5, 3000)
    D = r.choice([n * dt, dt * n + dt / 3, float("%.12g" % (n * dt))])
    x = synth(ctx, [], [1.0], [0.0], D, dt)
    q = D / dt
    ok = {int(math.floor(q + 1e-6)), int(math.floor(q - 1e-6))}
    ctx.say("duration %r at %r: %d samples", D, dt, len(x))
    ctx.check(len(x) in ok, "length", "duration %r at time step %r gave %d samples" % (D, dt, len(x)))
    ctx.note("n", D, dt)


def refused(ctx):
    r, at = ctx.r, ctx.at
    n, D, dt = lengths(ctx, 100)
    nodes, h, al = spectrum(ctx, grid(n, float(dt)))
    f = at.timmer_koenig_from_psd
    k = r.choice(["alpha", "nodes", "D", "dt", "short", "output"])
    ctx.say("refused: %s", k)
    if k == "alpha":
        ctx.refuses("segments", "more levels than exponents", f, nodes, np.append(h, 1.0), al, D, dt)
        ctx.refuses("segments", "more exponents than levels", f, nodes, h, np.append(al, 1.0), D, dt)
    elif k == "nodes":
        m = r.choice([len(h), len(h) + 1, len(h) + 3])
        if len(h) == 1:
            m = r.choice([1, 3, 4])
        ctx.refuses("segments", "%d breaks for %d segments" % (m, len(h)), f, np.sort(10 ** np.array([ctx.val(-3, 3) for _ in range(m)])), h, al, D, dt)
    elif k == "D":
        ctx.refuses("duration", "duration", f, nodes, h, al, r.choice([0, -1.0, -D]), dt)
    elif k == "dt":
        ctx.refuses("duration", "time step", f, nodes, h, al, D, r.choice([0, -1.0, -dt]))
    elif k == "short":
        ctx.refuses("short", "too short", f, nodes, h, al, r.choice([.5, 1, 2, 3, 3.9]) * float(dt), float(dt))
        x = ctx.call(f, nodes, h, al, 4.01 * float(dt), float(dt))
        ctx.check(len(x) == 4, "length", "four samples requested, %d returned" % len(x))
    else:
        ctx.refuses("output", "unknown output", f, nodes, h, al, D, dt, output=r.choice(["frequency", "x", "", None, "time"]))
    ctx.note("ref", k, ctx.idx)


FAMILIES = [Family(bins, 2500, 25000, timeout=120), Family(everybin, 500, 8000, timeout=120), Family(paired, 1500, 15000),
            Family(count, 300, 5000), Family(refused, 500, 5000)]
