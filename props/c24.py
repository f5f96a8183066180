import math
import numpy as np
from fractions import Fraction
from mon import gen, ref, stat
from mon.core import Family, Skip
from props import c08

SCALE = 3      # quick-tier multiplier of the family counts
RULE = ("Each case hands one unusable ingredient (rate, data type, record length, averaging times, keyword, function name, argument) or a "
        "borderline request to statistics and wrappers: an independent count of complete terms says whether the call must refuse or "
        "which values it must return; whatever returns is checked for at least two terms, finite non-negative values and aligned "
        "arrays. Non-trivial: distinct (entry point, fault, length, request).")
EVENTS = ["refusals expected", "refusals seen", "zero or negative rates refused", "data types refused", "short records refused",
          "tau requests refused", "keywords refused", "names refused", "arguments refused", "borderline calls answered", "answers checked",
          "control calls", "noise identification refused", "three-cornered hat refused", "Dataset refused"]
STATS = list(stat.STATS)
ENTRY = STATS + ["gradev", "gcodev", "tch", "dataset"]


def target(ctx, entry, inner=None, how=0):
    """callable (x, rate, dt, taus) -> (taus, dev, err, n) through one entry point, and the statistic that counts the terms"""
    at = ctx.at
    if entry in STATS or entry == "gradev":
        f = getattr(at, entry)
        return entry, lambda x, rate, dt, taus: f(x, rate=rate, data_type=dt, taus=taus)
    if entry == "gcodev":
        return entry, lambda x, rate, dt, taus: at.gcodev(x, np.array(x)[::-1].copy(), rate=rate, data_type=dt, taus=taus)
    inner = inner or ctx.r.choice(STATS + ["gradev"])
    if entry == "tch":
        f = getattr(at, inner)

        def g(x, rate, dt, taus):
            if dt != "phase":
                raise Skip()
            z = np.asarray(x)
            return at.three_cornered_hat_phase(z, z * .5, z * 1.2, rate, taus, f)
        return inner, g

    def h(x, rate, dt, taus):
        if how % 2:
            d = at.Dataset()
            d.set_input(x, rate=rate, data_type=dt, taus=taus)
        else:
            d = at.Dataset(x, rate=rate, data_type=dt, taus=taus)
        o = d.compute(inner)
        return o["taus"], o["stat"], o["stat_err"], o["stat_n"]
    return inner, h


def entries(ctx):
    """every statistic and wrapper in turn"""
    for e in ENTRY:
        name, f = target(ctx, e, how=ctx.r.randint(0, 1))
        yield e, name, f


def limit(name):
    return {"pdev": 60, "theo1": 60, "mtotdev": 40, "ttotdev": 40, "htotdev": 40, "mtie": 200}.get(name, 400)


def sane(ctx, e, name, out, rate, N):
    """post-condition of whatever a statistic returns for finite input"""
    t, d, er, n = out
    t, d, n = np.asarray(t, dtype=float), np.asarray(d, dtype=float), np.asarray(n, dtype=float)
    ers = [np.asarray(v, dtype=float) for v in er] if name == "gradev" and e != "tch" else [np.asarray(er, dtype=float)]
    w = e if e == name else "%s of %s" % (e, name)
    ctx.check(t.ndim == 1 and t.size > 0, "empty", "%s returned no averaging times" % w, out=out)
    ctx.check(all(v.shape == t.shape for v in [d, n] + ers), "aligned", "%s: shapes %s" % (w, [v.shape for v in [t, d, n] + ers]))
    ctx.check(np.all(np.isfinite(d)) and (name == "gcodev" or np.all(d >= 0)), "values", "%s: deviations %s" % (w, d[:20]))
    for v in ers:
        if name == "gradev":     # the interval's method may have no finite value for few terms; see C13
            ctx.check(not np.any(v < 0), "values", "%s: error bars %s" % (w, v[:20]))
        else:
            ctx.check(np.all(np.isfinite(v)) and (np.all(v >= 0) or name == "gcodev"), "values", "%s: error bars %s" % (w, v[:20]))
    ctx.check(np.all(np.isfinite(n)) and np.all(n >= 2) and np.all(n == np.round(n)), "terms", "%s: numbers of terms %s" % (w, n[:20]))
    k = t * float(rate)
    ctx.check(np.all(t > 0) and np.all(np.diff(t) > 0) and np.all(np.abs(k - np.round(k)) <= 1e-9 * k) and np.all(np.round(k) < N),
              "grid", "%s: averaging times %s at rate %r" % (w, t[:20], rate))
    ctx.obs("answers checked")


def words(name, w, N):
    """factor sets of a keyword; htotdev chooses on its N-1 frequency samples"""
    if name == "htotdev":
        return [[m for m in q if m < N - 1] for q in c08.keyword_sets(w, N - 1)] if N > 1 else [[]]
    return c08.keyword_sets(w, N) if N > 0 else [[]]


def expect(name, N, sets):
    return [c08.filter_(name, N, s) for s in sets]


def short(ctx):
    """records of 0..25 samples: refuse exactly when no averaging time has two terms"""
    r = ctx.r
    n = ctx.idx % 26
    for e, name, f in entries(ctx):
        dt = "phase" if e == "tch" else r.choice(["phase", "phase", "freq"])
        rate = gen.rate(ctx)
        x = gen.record(ctx, max(n, 2), kinds=gen.NOISY)[:n]
        N = n + (dt == "freq")
        if r.random() < .5:
            w = r.choice(["all", "octave", "decade", "log10", None])
            sets = words(name, w, N)
            taus = w
        else:
            ms = [r.randint(1, max(1, N + 2)) for _ in range(r.randint(1, 4))]
            taus = [float(Fraction(m) / Fraction(float(rate))) for m in ms]
            sets = [ms]
            if r.random() < .3:
                taus = np.array(taus)
        arg = list(x) if r.random() < .2 and e != "tch" else x
        alts = expect(name, N, sets)
        what = "%s (%s) of %d %s samples, taus=%s" % (e, name, n, dt, taus)
        if not any(alts):
            ctx.refuses("short", what, f, arg, rate, dt, taus)
            ctx.obs("short records refused")
            if e == "tch":
                ctx.obs("three-cornered hat refused")
            if e == "dataset":
                ctx.obs("Dataset refused")
        elif all(alts):
            out = ctx.call(f, arg, rate, dt, taus)
            sane(ctx, e, name, out, rate, N)
            got = [int(round(float(v) * float(rate))) for v in out[0]]
            ctx.check(got in alts, "factors", "%s answered at factors %s, two terms exist at %s" % (what, got, alts))
            if e in STATS:
                stat.verify(ctx, name, x, rate, dt, got, taus, out, tag=" short")
            ctx.obs("borderline calls answered")
        ctx.note(e, name, n, dt, repr(taus))
    ctx.say("records of %d samples", n)


def zero(ctx):
    """zero and negative sampling rates, every way to write them"""
    r = ctx.r
    for e, name, f in entries(ctx):
        N = r.randint(16, limit(name))
        x = gen.record(ctx, N, kinds=gen.NOISY)
        dt = "phase" if e == "tch" else r.choice(["phase", "freq"])
        taus = r.choice([None, "all", "octave", "decade", "log10", [1.0], [1.0, 2.0, 4.0], np.array([1.0, 2.0]), [0.0], np.array([1, 2])])
        bad = r.choice([0, 0.0, -0.0, np.float64(0), np.int64(0), np.float32(0), False, np.array(0.0), -1, -1.0, -gen.rate(ctx), -1e-9, np.float64(-2)])
        if e in STATS and N > 60 and name in stat.PYCOST and isinstance(taus, str):
            taus = "octave"
        ctx.refuses("rate", "%s (%s) at rate %r, %s, taus=%r" % (e, name, bad, dt, taus), f, x, bad, dt, taus)
        ctx.obs("zero or negative rates refused")
        ctx.obs({"tch": "three-cornered hat refused", "dataset": "Dataset refused"}.get(e, "statistics refused"))
        ctx.note(e, name, repr(bad), dt, repr(taus))
        if isinstance(taus, str) or taus is None:       # the same call at a usable rate is answered
            if not (name in stat.PYCOST and N > 60):
                good = gen.rate(ctx)
                M = N + (dt == "freq")
                alts = expect(name, M, words(name, taus, M))
                if all(alts):
                    sane(ctx, e, name, ctx.call(f, x, good, dt, taus), good, M)
                    ctx.obs("control calls")
    for fn in (lambda b: ctx.at.ci.rn(x, 2, b), lambda b: ctx.at.ci.b1(x, 2, b)):
        ctx.refuses("rate", "noise identification ratio at zero rate", fn, r.choice([0, 0.0, np.float64(0)]))
    ctx.say("zero or negative rate")


TYPES = ["frequency", "Phase", "PHASE", "Freq", "phas", "phase ", " freq", "", "time", "x", "y", "fre", "phasefreq", "fractional", None, 0, 1, b"phase",
         "freq\n", "phase_data", "int", "radians", ["phase"], True]


def datatypes(ctx):
    """unknown data types in every statistic and wrapper, including where the record is otherwise fine"""
    r = ctx.r
    for e, name, f in entries(ctx):
        if e == "tch":
            continue
        N = r.randint(40, max(41, limit(name)))
        x = gen.record(ctx, N, kinds=gen.NOISY)
        bad = r.choice(TYPES) if r.random() < .7 else "".join(r.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(r.randint(1, 9)))
        if bad in ("phase", "freq"):
            continue
        taus = r.choice([None, [1.0], "octave", [1.0, 2.0], [2.0, 4.0]])
        ctx.refuses("type", "%s (%s) with data_type=%r" % (e, name, bad), f, x, 1.0, bad, taus)
        ctx.obs("data types refused")
        if e == "dataset":
            ctx.obs("Dataset refused")
        ctx.note(e, name, repr(bad), N)
    N = r.randint(30, 400)
    x = gen.record(ctx, N, kinds=gen.NOISY)
    for bad in r.sample(TYPES, 6):
        af = r.choice([1, 1, 2, 3])
        ctx.refuses("type", "autocorr_noise_id with data_type=%r" % (bad,), ctx.at.autocorr_noise_id, np.tile(x, 4), af, data_type=bad)
        ctx.refuses("type", "confidence_interval_noiseID with data_type=%r" % (bad,), ctx.at.confidence_interval_noiseID, np.tile(x, 4), 1.0, af,
                    dev_type=r.choice(["adev", "oadev", "mdev", "tdev", "hdev", "ohdev"]), data_type=bad)
        ctx.obs("noise identification refused", 2)
        ctx.note("autocorr", repr(bad), N, af)
    ctx.say("unknown data types")


def unusable(ctx):
    """averaging-time requests with nothing usable"""
    r = ctx.r
    for e, name, f in entries(ctx):
        N = r.randint(4, limit(name))
        rate = gen.rate(ctx)
        dt = "phase" if e == "tch" else r.choice(["phase", "freq"])
        M = N + (dt == "freq")
        x = gen.record(ctx, N, kinds=gen.NOISY)
        t0 = 1 / float(rate)
        big = []
        for m in range(1, M + 40):
            if not c08.filter_(name, M, [m]):
                big.append(m)
        pool = [0.0, -0.0, -t0, -2 * t0, -1e9 * t0, .3 * t0, .49 * t0, 1e-12 * t0, -.4 * t0, math.nan, math.inf, -math.inf, M * t0, (M + 1) * t0,
                2 * M * t0, 1e6 * M * t0, 1e15 * M * t0]
        pool += [m * t0 for m in r.sample(big, min(len(big), 8))]
        if name == "theo1":
            pool += [m * t0 for m in range(1, M, 2)]
        vals = [r.choice(pool) for _ in range(r.choice([1, 1, 2, 3, 8]))]
        k = [float(Fraction(v) * Fraction(float(rate))) for v in vals if math.isfinite(v)]
        if any(abs(a - math.floor(a) - .5) < 1e-6 for a in k):
            continue
        ms = [int(math.floor(a + .5)) for a in k]
        if c08.filter_(name, M, ms):
            continue
        taus = r.choice([vals, np.array(vals), np.array(vals, dtype=float)])
        if r.random() < .1:
            taus = np.array([])
        ctx.refuses("taus", "%s (%s) of %d samples at rate %r, taus=%s" % (e, name, N, rate, taus), f, x, rate, dt, taus)
        ctx.obs("tau requests refused")
        if e == "tch":
            ctx.obs("three-cornered hat refused")
        if e == "dataset":
            ctx.obs("Dataset refused")
        ctx.note(e, name, N, float(rate), repr(list(taus)))
    ctx.say("requests without a usable averaging time")


def near_name(r, valid):
    """a name that almost is one of the valid ones"""
    while True:
        w = r.choice(valid)
        u = r.randrange(8)
        w = [lambda: r.choice("axomhtp_0 ") + w, lambda: w + r.choice("sx2_ "), lambda: w[:-1], lambda: w[1:], lambda: w.upper(), lambda: w.title(),
             lambda: w[:2] + w[1:], lambda: w + w][u]()
        if w not in valid:
            return w


WORDS = ["All", "ALL", "octaves", "Octave", "dec", "decades", "many", "log2", "log", "log100", "auto", " all", "all ", "none", "None", "10", "1", "linear", "default",
         "a", "octave,decade", "log10 "]


def keywords(ctx):
    """unknown keywords: averaging times, kinds, vartypes, argument names, noise types"""
    r = ctx.r
    at = ctx.at
    for e, name, f in entries(ctx):
        N = r.randint(30, max(31, limit(name)))
        x = gen.record(ctx, N, kinds=gen.NOISY)
        dt = "phase" if e == "tch" else r.choice(["phase", "freq"])
        bad = r.choice(WORDS) if r.random() < .7 else "".join(r.choice("abcdeloctv10") for _ in range(r.randint(1, 8)))
        if bad in ("all", "octave", "decade", "log10"):
            continue
        if r.random() < .2:
            bad = [bad]
        ctx.refuses("keyword", "%s (%s) with taus=%r" % (e, name, bad), f, x, gen.rate(ctx), dt, bad)
        ctx.obs("keywords refused")
        ctx.note(e, name, N, repr(bad))
        if e in STATS + ["gradev"]:
            kw = r.choice(["tau", "data_typ", "datatype", "Rate", "rates", "af", "afs", "alpha", "noise", "Taus", "fs", "kind", "weights"])
            ctx.refuses("argument", "%s with %s=" % (e, kw), getattr(at, e), x, **{kw: 1})
            ctx.obs("arguments refused")
    t = 2.0 ** np.arange(6)
    ctx.refuses("keyword", "adev2psd vartype", at.adev2psd_piecewise_approx, t ** -.5, t, r.choice(["mdev", "tdev", "", "xdev", None, 1]))
    ctx.refuses("keyword", "confidence interval type", at.confidence_interval_noiseID, np.random.randn(300), 1.0, 1,
                dev_type=r.choice(["pdev", "xdev", "", "totdev", "theo1", "mtie", None, "ADEV"]))
    for _ in range(4):
        w = near_name(r, ["adev", "oadev", "mdev", "tdev", "hdev", "ohdev"])
        ctx.refuses("keyword", "confidence interval type %r" % w, at.confidence_interval_noiseID, ctx.rng.standard_normal(300), 1.0, 1, dev_type=w)
        w = near_name(r, ["phase", "freq"])
        name = r.choice(STATS)
        ctx.refuses("type", "%s with data_type=%r" % (name, w), getattr(at, name), ctx.rng.standard_normal(40), data_type=w, taus=[2.0])
        w = near_name(r, ["all", "octave", "decade", "log10"])
        ctx.refuses("keyword", "%s with taus=%r" % (name, w), getattr(at, name), ctx.rng.standard_normal(40), taus=w)
    ctx.refuses("keyword", "synthesis output", at.timmer_koenig_from_psd, [], [1.0], [0.0], 64.0, 1.0, output=r.choice(["x", "", "time", None, "Phase"]))
    ctx.obs("keywords refused", 3)
    ctx.say("unknown keywords")


NAMES = ["notafunction", "madev", "Adev", "ADEV", "oadev ", " adev", "dev", "", "avar", "mvar", "hadev", "ODEV", "mtie_phase_fast", "trim_data", "psd2allan",
         "frequency2phase", "phase2frequency", "tau_generator", "three_cornered_hat_phase", "noise", "Dataset", "Noise", "edf_simple", "np", "ci", "mask",
         "confidence_interval", "autocorr_noise_id", "__init__", "__doc__", "oadev_realtime", "uncertainty_estimate", "tau_reduction", "stddev", "mtie2",
         "rn", "psd_piecewise_to_adev", None, 3, b"adev", "adev()"]


def names(ctx):
    """unknown function names given to Dataset, and things that are no deviation function given to the three-cornered hat"""
    r = ctx.r
    x = gen.record(ctx, r.randint(30, 200), kinds=gen.NOISY)
    d = ctx.at.Dataset(x, rate=gen.rate(ctx))
    before = None
    if r.random() < .5:
        before = ctx.call(d.compute, r.choice(["adev", "mdev", "tierms"]))
        before = {k: np.array(v) for k, v in before.items()}
    for b in r.sample(NAMES, 12) + [near_name(r, STATS + ["gradev"]) for _ in range(6)]:
        if isinstance(b, str) and b in STATS + ["gradev"]:
            continue
        ctx.refuses("name", "Dataset.compute(%r)" % (b,), d.compute, b)
        ctx.obs("names refused")
        ctx.note(repr(b), len(x))
        if before is None:
            ctx.check(d.out["stat"] is None and d.out["taus"] is None, "after", "a refused compute left results", out=d.out)
        else:
            ctx.check(all(np.array_equal(d.out[k], v) for k, v in before.items()), "after", "a refused compute changed the results")
    ctx.obs("Dataset refused")
    y = np.asarray(x)
    for b in r.sample(["adev", None, 3, np.mean, len, "mdev", ctx.at.phase2frequency, ctx.at.trim_data], 3):
        ctx.refuses("name", "three-cornered hat with function %r" % (b,), ctx.at.three_cornered_hat_phase, y, y, y, 1.0, [1.0, 2.0], b)
        ctx.obs("three-cornered hat refused")
    ctx.say("unknown names")


def lengths(ctx):
    """records of different lengths, noise identification of too few points"""
    r = ctx.r
    N = r.randint(30, 300)
    x = gen.record(ctx, N, kinds=gen.NOISY)
    k = r.randint(1, N - 1)
    a, b = (x, x[:k]) if r.random() < .5 else (x[:k], x)
    dt = r.choice(["phase", "freq"])
    ctx.refuses("length", "gcodev of %d and %d samples" % (len(a), len(b)), ctx.at.gcodev, a, b, data_type=dt, taus=r.choice([None, [1.0], "all", "octave"]))
    ctx.note("gcodev", len(a), len(b), dt)
    for dt in ("phase", "freq"):
        af = r.choice([1, 1, 2, 3, 7, 20])
        n = r.randint(29 * af, 30 * af - 1) if r.random() < .3 else r.randint(1, 29 * af)
        if dt == "phase":
            n = min(n, 29 * af)     # ceil(n/af) < 30
        z = np.resize(x, n) + 1e-3 * np.random.randn(n) * (np.max(np.abs(x)) or 1)
        ctx.refuses("points", "autocorr_noise_id of %d %s points at factor %d" % (n, dt, af), ctx.at.autocorr_noise_id, z, af, data_type=dt)
        ctx.refuses("points", "confidence_interval_noiseID of %d %s points at factor %d" % (n, dt, af), ctx.at.confidence_interval_noiseID, z, 1.0, af,
                    dev_type=r.choice(["adev", "oadev", "mdev", "tdev", "hdev", "ohdev"]), data_type=dt)
        ctx.obs("noise identification refused", 2)
        ctx.note("autocorr", n, af, dt)
        n = 30 * af
        z = np.resize(x, n) + np.random.randn(n) * (np.max(np.abs(x)) or 1)
        o = ctx.call(ctx.at.autocorr_noise_id, z, af, data_type=dt)
        ctx.check(all(np.isfinite(v) for v in o), "finite", "identification returned %s" % (o,))
        ctx.obs("control calls")
    ctx.say("unequal lengths and short identification")


def fuzz(ctx):
    """random mixtures of usable and unusable ingredients: a call returns exactly when everything is usable"""
    r = ctx.r
    e = r.choice(ENTRY)
    name, f = target(ctx, e, how=r.randint(0, 1))
    for _ in range(4):
        n = r.choice([r.randint(1, 12), r.randint(4, 40), r.randint(10, limit(name))])
        x = gen.record(ctx, max(2, n))[:n]
        u = r.random()
        rate = r.choice([0, -1.0]) if u < .06 else gen.rate(ctx)
        dt = r.choice(["phase", "freq"]) if r.random() > .06 or e == "tch" else r.choice(["x", "Freq"])
        if e == "tch":
            dt = "phase"
        N = n + (dt == "freq")
        bad = rate in (0, -1.0) and isinstance(rate, (int, float)) and rate <= 0 or dt not in ("phase", "freq")
        u = r.random()
        if u < .25:
            w = r.choice(["all", "octave", "decade", "log10", None])
            if w == "all" and n > 60 or name in stat.PYCOST and n > 60:
                w = "octave"
            taus, sets = w, words(name, w, N)
            if name in stat.PYCOST and n > 100:
                continue
        elif u < .3:
            taus, sets = r.choice(WORDS), [[]]
            bad = True
        else:
            try:
                taus, ms = c08.hostile(ctx, max(N, 1), rate if float(rate) > 0 else 1.0, sparse=True)
            except Skip:
                continue
            sets = [ms]
            if r.random() < .3:
                taus = np.array(taus)
        alts = expect(name, N, sets)
        what = "%s (%s) of %d %s samples at rate %r, taus=%s" % (e, name, n, dt, rate, taus)
        if bad or not any(alts):
            ctx.refuses("fuzz", what, f, x, rate, dt, taus)
        elif all(alts):
            out = ctx.call(f, x, rate, dt, taus)
            sane(ctx, e, name, out, rate, N)
            got = [int(round(float(v) * float(rate))) for v in out[0]]
            ctx.check(got in alts, "factors", "%s answered at factors %s, two terms exist at %s" % (what, got, alts))
            ctx.obs("borderline calls answered")
        ctx.note(e, name, n, dt, repr(rate), repr(taus), bad)
    ctx.say("%s (%s)", e, name)


FAMILIES = [
    Family(short, 1040, 16000),
    Family(zero, 480, 8000),
    Family(datatypes, 480, 8000),
    Family(unusable, 600, 10000),
    Family(keywords, 320, 5000),
    Family(names, 240, 4000),
    Family(lengths, 400, 8000),
    Family(fuzz, 5000, 120000),
]
