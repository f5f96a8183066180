"""Families shared by C01-C04: definitional oracle for the deviation statistics."""
import numpy as np
from mon import gen, stat
from mon.core import Family

RULE = ("A case is one call of one statistic on a generated record (24 shapes x scales x offsets, lengths from the "
        "smallest usable one, all small lengths, powers of two and neighbours up to 1e6), sampling rate, input kind, container "
        "and averaging-time request; every returned averaging time, deviation, count and error bar is compared with an "
        "80-bit definitional reference. Non-trivial: the call returned at least one value and its (record, rate, kind, "
        "factors, statistic) was not seen before.")


def make(names, slow=(), quick=1.0, nan=False, small_hi=20):
    names = list(names)
    fast = [n for n in names if n not in slow]

    def small(ctx):
        """every record length from 1 up, every averaging factor"""
        per = small_hi - 2
        n = 3 + (ctx.idx // len(names)) % per
        name = names[ctx.idx % len(names)]
        x = gen.record(ctx, n)
        rate = gen.rate(ctx)
        dt = "freq" if ctx.r.random() < .3 else "phase"
        if dt == "freq":
            x = x[:-1] if len(x) > 3 else x
        N = n if dt == "phase" else len(x) + 1
        ms = [m for m in range(1, N)]
        if name == "theo1":
            ms = [m for m in ms if m % 2 == 0]
        stat.run(ctx, name, x, rate, dt, ms=ms)

    def medium(ctx):
        name = names[ctx.idx % len(names)]
        hi = 700 if name in slow else 6000
        N = gen.length(ctx, 8, hi)
        x = gen.record(ctx, N)
        stat.run(ctx, name, x, gen.rate(ctx), k=4 if name in slow else 8)

    def freqin(ctx):
        name = names[ctx.idx % len(names)]
        hi = 400 if name in slow else 3000
        N = gen.length(ctx, 8, hi)
        x = gen.record(ctx, N)
        stat.run(ctx, name, x, gen.rate(ctx), "freq", k=4 if name in slow else 7)

    def large(ctx):
        name = names[ctx.idx % len(names)]
        hi = 20000 if name in slow else (1_100_000 if ctx.thorough else 300_000)
        if name == "mtie":
            hi = 30000
        N = gen.length(ctx, 2000, hi)
        x = gen.record(ctx, N)
        ms = None
        if name in slow:
            ms = sorted(set(ctx.r.choice([1, 2, 3, 4, 5, 6, 8, 10, 16, 20]) for _ in range(2)))
            if name == "theo1":
                ms = sorted(set(2 * m for m in ms))
        stat.run(ctx, name, x, gen.rate(ctx), ms=ms, k=5, cost=8e5)

    def huge(ctx):
        """records of up to three million samples, factors over the whole range"""
        name = fast[ctx.idx % len(fast)]
        hi = 1_200_000 if name == "mtie" else 3_000_000
        u = ctx.r.random()
        if u < .5 and any(hi // 10 <= v < hi for v in ctx.hot["ints"]):
            v = ctx.r.choice([v for v in ctx.hot["ints"] if hi // 10 <= v < hi])
            N = min(hi, int(v * ctx.r.choice([1, 1, 1.3, 2, 2.5])) + ctx.r.randint(-3, 3))
        else:
            N = int(hi * ctx.r.choice([1.0, .7, .4, .23]) * ctx.r.uniform(.8, 1)) + ctx.r.randint(0, 3)
        x = gen.record(ctx, N)
        top = stat.mmax(name, N) if name != "mtie" else 12
        ms = sorted(set(min(top, max(1, m)) for m in [1, ctx.r.randint(2, 9), int(top ** ctx.r.uniform(.3, .99)), top - ctx.r.randrange(3)]))
        ms = ctx.r.sample(ms, min(len(ms), 3))
        stat.run(ctx, name, x, gen.rate(ctx), ms=sorted(ms), cost=1e9)

    def dense(ctx):
        """hundreds of averaging times in one request"""
        name = names[ctx.idx % len(names)]
        N = gen.length(ctx, 20, 60) if name in slow else gen.length(ctx, 60, 3000, 12000, .1)
        x = gen.record(ctx, N)
        top = stat.mmax(name, N)
        u = ctx.r.random()
        ms = list(range(1, top + 1))
        if u < .6:
            ms = sorted(set(ctx.r.sample(ms, max(1, int(top * ctx.r.uniform(.3, 1))))))
        if name == "theo1":
            ms = [m for m in ms if m % 2 == 0] or [2]
        stat.run(ctx, name, x, gen.rate(ctx), "freq" if ctx.r.random() < .2 else "phase", ms=ms, cost=2e5)

    def longm(ctx):
        """long sub-sequences: largest factors of medium records for the slow statistics"""
        name = slow[ctx.idx % len(slow)]
        N = gen.length(ctx, 60, 700)
        x = gen.record(ctx, N)
        top = stat.mmax(name, N)
        ms = [max(1, top - ctx.r.randrange(0, 4)) for _ in range(2)]
        if name == "theo1":
            ms = [max(2, m - m % 2) for m in ms]
        stat.run(ctx, name, x, gen.rate(ctx), ms=sorted(set(ms)), cost=1.2e6)

    def nans(ctx):
        """gaps inside the record: NaN out whenever a NaN is inside a term, the exact value otherwise"""
        name = names[ctx.idx % len(names)]
        N = gen.length(ctx, 8, 400)
        x = gen.record(ctx, N)
        for _ in range(ctx.r.choice([1, 1, 2, 5])):
            x[ctx.r.choice([0, N - 1, N - 2, ctx.r.randrange(N), ctx.r.randrange(N)])] = np.nan
        stat.run(ctx, name, x, gen.rate(ctx), k=8)

    q = quick
    fams = [Family(small, int(len(names) * (small_hi - 2) * 2 * q), len(names) * (small_hi - 2) * 25),
            Family(medium, int(150 * len(names) * q), 4000 * len(names)),
            Family(freqin, int(60 * len(names) * q), 1500 * len(names)),
            Family(large, int(16 * len(names) * q), 300 * len(names), timeout=120)]
    fams.append(Family(dense, int(16 * len(names) * q), 300 * len(names), timeout=120))
    fams.append(Family(huge, 6 * len(fast), 60 * len(fast), timeout=200))
    if slow:
        fams.append(Family(longm, int(30 * len(slow) * q), 300 * len(slow), timeout=120))
    if nan:
        fams.append(Family(nans, int(60 * len(names) * q), 1500 * len(names)))
    return fams
