import math
import numpy as np
from mon import edf, gen, ref
from mon.core import Family, Skip

SCALE = 2      # quick-tier multiplier of the family counts
RULE = ("A case is one or more evaluations of the degrees-of-freedom functions; the monitor recomputes the published algorithm or "
        "table in extended precision, checks positivity, growth, overlap and continuity across case boundaries, and compares with the "
        "exact degrees of freedom of the estimator's quadratic form. Non-trivial: distinct (function, arguments).")
CASES = ["1.1", "1.2", "1.3", "2.1a", "2.1b", "2.2", "2.3", "3.1", "3.2", "3.3", "4.2"]
EVENTS = ["calls", "table values compared", "quadratic forms compared", "boundaries crossed", "refusals seen"] + ["case " + c for c in CASES]


def draw(ctx, mmax=400):
    """(alpha, d, m, N, overlapping, modified) inside the published domain, all algorithm cases about equally often"""
    r = ctx.r
    d = r.choice([1, 2, 2, 3, 3])
    a = r.randint(max(-4, 2 - 2 * d), 2)
    m = gen.length(ctx, 1, mmax)
    mod, ov = r.random() < .4, r.random() < .7
    low = (d + 1) * m if mod else 1 + d * m
    u = r.random()
    if u < .25:
        N = low + r.randrange(0, 2 * m + 3)
    elif u < .6:
        N = low + r.randrange(0, 6 * m + 20)
    else:
        N = low + int(math.exp(r.uniform(0, math.log(20000))))
    return a, d, m, N, ov, mod


def rounding(a, d, m, N, ov, mod, case):
    """relative rounding allowance of a float64 evaluation of the algorithm: cancellation in second/2d-th differences"""
    if case in ("1.2", "2.2", "3.2", "4.2"):
        return 1e-11
    F, S, M = edf.terms(d, m, N, ov, mod)
    F = {"1.1": 1, "1.3": 1, "2.1a": m, "2.1b": edf.INF, "2.3": edf.INF, "3.1": m, "3.3": 100.0 * S / M}[case]
    T = d + 2 + min(M, (d + 1) * S) / S
    k = {2: 1, 1: 2, 0: 3, -1: 4, -2: 5, -3: 6, -4: 7}[a - 0 if F != edf.INF else a + 2 if a + 2 <= 2 else a]
    size = ref.EPS * 4 ** d * T ** k * (math.log(T + 1) if k % 2 == 0 else 1) * (F * F if F != edf.INF else 1) * 8
    z = abs(float(edf.sz(0, F, a, d)))
    return 1e-10 + 40 * size / z


def algorithm(ctx):
    a, d, m, N, ov, mod = draw(ctx)
    want, case = edf.greenhall(a, d, m, N, ov, mod)
    if want is None and case != "K<=d":
        raise Skip()
    kw = dict(overlapping=ov, modified=mod)
    if not ov and ctx.r.random() < .5:
        kw.pop("overlapping")
    if not mod and ctx.r.random() < .5:
        kw.pop("modified")
    mm = ctx.r.choice([m, m, float(m), np.int64(m)])
    if want is None:
        raise Skip()            # formula not given in the library's algorithm; either answer or refusal is acceptable
    ctx.say("edf_greenhall alpha=%d d=%d m=%r N=%d overlapping=%s modified=%s case %s", a, d, mm, N, ov, mod, case)
    got = ctx.call(ctx.at.edf_greenhall, a, d, mm, N, **kw)
    tol = rounding(a, d, m, N, ov, mod, case)
    if tol > .02:
        raise Skip()
    ctx.near(float(got), want, tol * want, "greenhall", "edf_greenhall(alpha=%d, d=%d, m=%d, N=%d, overlapping=%s, modified=%s), case %s"
             % (a, d, m, N, ov, mod, case))
    ctx.check(math.isfinite(got) and got > 0, "positive", "edf %r" % got)
    ctx.obs("case " + case)
    ctx.note("g", a, d, m, N, ov, mod)


def everyrow(ctx):
    """every (alpha, d, case) combination of the algorithm in turn"""
    combos = [(a, d, c) for d in (1, 2, 3) for a in range(2, -5, -1) if a + 2 * d > 1 for c in CASES
              if (c[0] == "1") or (c[0] == "2" and a <= 0) or (c[0] == "3" and a == 1) or (c[0] == "4" and a == 2)]
    a, d, c = combos[ctx.idx % len(combos)]
    for _ in range(400):
        mod = c[0] == "1"
        m = ctx.r.choice([1, 2, 3, 5, 10, 20, 26, 34, 51, 64, 80, 101, 110, 128, 200, 300, 500])
        ov = c != "2.1b" if ctx.r.random() < .8 else ctx.r.random() < .5
        N = (d + 1) * m + int(math.exp(ctx.r.uniform(0, math.log(50 * m + 50))))
        want, case = edf.greenhall(a, d, m, N, ov, mod)
        if case == c and want is not None:
            break
    else:
        raise Skip()
    tol = rounding(a, d, m, N, ov, mod, case)
    if tol > .02:
        raise Skip()
    got = ctx.call(ctx.at.edf_greenhall, alpha=a, d=d, m=m, N=N, overlapping=ov, modified=mod)
    ctx.say("row alpha=%d d=%d case %s: m=%d N=%d", a, d, c, m, N)
    ctx.near(float(got), want, tol * want, "greenhall", "edf_greenhall(alpha=%d, d=%d, m=%d, N=%d, overlapping=%s, modified=%s), case %s"
             % (a, d, m, N, ov, mod, case))
    ctx.obs("case " + c)
    ctx.note("g", a, d, m, N, ov, mod)


def behaviour(ctx):
    """growth, overlap, continuity of the values themselves"""
    r, at = ctx.r, ctx.at
    a, d, m, N, ov, mod = draw(ctx, 300)

    def f(**k):
        q = dict(alpha=a, d=d, m=m, N=N, overlapping=ov, modified=mod)
        q.update(k)
        w, c = edf.greenhall(q["alpha"], q["d"], q["m"], q["N"], q["overlapping"], q["modified"])
        if w is None or rounding(q["alpha"], q["d"], q["m"], q["N"], q["overlapping"], q["modified"], c) > 1e-3:
            return None, c
        v = float(ctx.call(at.edf_greenhall, **q))
        ctx.check(math.isfinite(v) and v > 0, "positive", "edf_greenhall(%s) = %r" % (q, v))
        return v, c
    e, c = f()
    if e is None:
        raise Skip()
    ctx.say("alpha=%d d=%d m=%d N=%d ov=%s mod=%s edf=%.5g", a, d, m, N, ov, mod, e)
    for n2 in (N + m, 2 * N, N + r.randint(1, 50)):
        g, c2 = f(N=n2)
        if g is not None:
            ctx.check(g >= e * (.999 if c == c2 else .95), "growth", "edf falls from %g to %g when N grows from %d to %d" % (e, g, N, n2))
    if edf.terms(d, m, N, False, mod)[2] >= 8:
        p, q = f(overlapping=True)[0], f(overlapping=False)[0]
        if p is not None and q is not None:
            ctx.check(p >= q / 1.13, "overlap", "overlapped estimator has fewer degrees of freedom (%g) than non-overlapped (%g)" % (p, q))
    # walk over the next internal boundaries in N and m
    if m >= 25 and ov:
        n, last, lc = N, e, c
        for _ in range(12):
            n += 1
            g, gc = f(N=n)
            if g is None:
                break
            if gc != lc:
                ctx.check(abs(math.log(g / last)) < .05, "continuity", "edf jumps from %g to %g between N=%d (case %s) and %d (case %s)"
                          % (last, g, n - 1, lc, n, gc))
                ctx.obs("boundaries crossed")
            last, lc = g, gc
        mm, last, lc = m, e, c
        for _ in range(4):
            mm += 1
            if N < (d + 2) * mm + 5:
                break
            g, gc = f(m=mm)
            if g is None:
                break
            if gc != lc:
                ctx.check(abs(math.log(g / last)) < .15, "continuity", "edf jumps from %g to %g between m=%d (case %s) and %d (case %s)"
                          % (last, g, mm - 1, lc, mm, gc))
                ctx.obs("boundaries crossed")
            last, lc = g, gc
    ctx.note("b", a, d, m, N, ov, mod)


def boundary(ctx):
    """start next to an internal boundary on purpose"""
    r = ctx.r
    for _ in range(200):
        d = r.choice([1, 2, 3])
        a = r.randint(max(-4, 2 - 2 * d), 1)
        mod = r.random() < .5
        if not mod and a > 1:
            continue
        m = r.randint(25, 140)
        N = (d + 1) * m + r.randint(1, 5 * m)
        w1, c1 = edf.greenhall(a, d, m, N, True, mod)
        w2, c2 = edf.greenhall(a, d, m, N + 1, True, mod)
        if w1 is None or w2 is None or c1 == c2:
            continue
        if max(rounding(a, d, m, N, True, mod, c1), rounding(a, d, m, N + 1, True, mod, c2)) > 1e-3:
            continue
        g1, g2 = [float(ctx.call(ctx.at.edf_greenhall, a, d, m, n, overlapping=True, modified=mod)) for n in (N, N + 1)]
        ctx.say("boundary %s/%s alpha=%d d=%d m=%d N=%d: %g %g", c1, c2, a, d, m, N, g1, g2)
        ctx.check(abs(math.log(g1 / g2)) < .05, "continuity", "edf jumps from %g to %g between N=%d (case %s) and %d (case %s), alpha=%d d=%d m=%d"
                  % (g1, g2, N, c1, N + 1, c2, a, d, m))
        ctx.obs("boundaries crossed")
        ctx.note("bd", a, d, m, N, mod)
        return
    raise Skip()


def quadratic(m, d, order, mod, ov, N):
    """exact edf of mean(v^2), v = differences of noise summed `order` times: tr(C)^2 / tr(C^2)"""
    base = np.zeros(d * m + 1)
    for k in range(d + 1):
        base[k * m] = (-1) ** k * math.comb(d, k)
    if mod:
        base = np.convolve(base, np.ones(m))
    for _ in range(order):
        base = np.cumsum(base)
    h = base
    n = N - (d * m + 1 + (m - 1 if mod else 0)) + 1
    acf = np.correlate(h, h, "full")[len(h) - 1:]
    st = 1 if ov else m
    M = (n + st - 1) // st
    lag = np.arange(M) * st
    c = np.where(lag < len(acf), acf[np.minimum(lag, len(acf) - 1)], 0.0)
    return M * M * c[0] ** 2 / (M * c[0] ** 2 + 2 * np.sum((M - np.arange(1, M)) * c[1:] ** 2))


def forms(ctx):
    """against the exact degrees of freedom of the quadratic form (white PM, white FM, random-walk FM)"""
    r = ctx.r
    d = r.choice([1, 2, 3])
    order = r.choice([q for q in (0, 1, 1, 2) if 2 - 2 * q + 2 * d > 1])
    a = 2 - 2 * order
    ov = r.random() < .75
    mod = r.random() < .35
    m = r.choice([1, 2, 3, 4, 5, 8, 10, 16, 20, 25, 33, 40, 50])
    N = (d + 1) * m + 1 + int(math.exp(r.uniform(math.log(m + 1), math.log(30 * m + 60))))
    want, case = edf.greenhall(a, d, m, N, ov, mod)
    if want is None:
        raise Skip()
    exact = quadratic(m, d, order, mod, ov, N)
    got = float(ctx.call(ctx.at.edf_greenhall, a, d, m, N, overlapping=ov, modified=mod))
    if m == 1 and (mod or order) and not (mod and order == 0):
        raise Skip()        # at m = 1 the algorithm's continuous-time noise is far from the sampled process
    tol = formtol(m, order, mod, case)
    ctx.say("quadratic form alpha=%d d=%d m=%d N=%d ov=%s mod=%s case %s: %.5g, exact %.5g", a, d, m, N, ov, mod, case, got, exact)
    ctx.near(got, exact, tol * exact, "quadratic-form",
             "edf (alpha=%d, d=%d, m=%d, N=%d, overlapping=%s, modified=%s, case %s) against the quadratic form" % (a, d, m, N, ov, mod, case))
    ctx.obs("quadratic forms compared")
    ctx.note("q", a, d, m, N, ov, mod)


def formtol(m, order, mod, case):
    """how far the algorithm (continuous-time noise, truncation) may be from the sampled process: measured, with a factor 2-3"""
    if (order == 0 and case in ("4.2", "1.1")) or (order == 1 and case == "2.1b"):
        return 1e-6
    if case == "2.1a":
        return min(.35, 1.6 / m)
    return .01 + 1.2 / m ** 2


def tables(ctx):
    """edf_simple, edf_totdev, edf_mtotdev"""
    r, at = ctx.r, ctx.at
    m = gen.length(ctx, 1, 2000)
    N = r.randint(3 * m + 2, 3 * m + 10) if r.random() < .3 else 3 * m + 2 + gen.length(ctx, 1, 100000)
    if m > 1 and r.random() < .2:
        N = 3 * m + r.choice([0, 0, 1])
    a = r.choice([2, 1, 0, -1, -2])
    n, mm = r.choice([(N, m), (N, m), (float(N), m), (np.int64(N), np.int64(m))])
    for name, f in (("edf_simple", edf.simple), ("edf_totdev", edf.totdev), ("edf_mtotdev", edf.mtotdev)):
        w = f(N, m, a)
        g = ctx.call(getattr(at, name), n, mm, a)
        if math.isnan(w):
            continue
        ctx.near(float(g), w, 1e-10 * abs(w), "tables", "%s(N=%d, m=%d, alpha=%d)" % (name, N, m, a))
        ctx.check(math.isfinite(float(g)) and (float(g) > 0), "positive", "%s(%d, %d, %d) = %r" % (name, N, m, a, g))
        g2 = ctx.call(getattr(at, name), 2 * N, m, a)
        ctx.check(float(g2) > float(g), "growth", "%s does not grow with N" % name)
        ctx.obs("table values compared")
    if r.random() < .1:
        b = r.choice([None, 3, -3, -4, 7])
        ctx.near(float(ctx.call(at.edf_simple, N, m, b)), N - 1, 0, "tables", "edf_simple with unknown noise type")
    ctx.say("tables N=%d m=%d alpha=%d", N, m, a)
    ctx.note("t", N, m, a)


def domain(ctx):
    r, at = ctx.r, ctx.at
    d = r.choice([1, 2])
    a = r.randint(-4, 1 - 2 * d) if 1 - 2 * d >= -4 else None
    ctx.refuses("domain", "edf_greenhall outside alpha+2d>1", at.edf_greenhall, a, d, r.randint(1, 20), 300,
                overlapping=r.random() < .5, modified=r.random() < .5)
    ctx.refuses("domain", "edf_mtotdev outside -2..2", at.edf_mtotdev, 300, r.randint(1, 20), r.choice([3, -3, -4]))
    ctx.note("dom", a, d, ctx.idx % 40)


FAMILIES = [Family(algorithm, 6000, 150000), Family(everyrow, 1500, 12000), Family(behaviour, 500, 9000), Family(boundary, 500, 6000),
            Family(forms, 2500, 40000), Family(tables, 3000, 60000), Family(domain, 80, 400)]
