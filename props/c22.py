import math
import os
import re
import shutil
import tempfile
from decimal import Decimal
import numpy as np
from mon import gen, stat
from mon.core import Family, Skip

SCALE = 2      # quick-tier multiplier of the family counts
RULE = ("A case is a random history of operations (construct, set inputs, compute, refused compute, write, plot, save) over several "
        "Dataset and Plot objects; after every operation the monitor compares every object's input and output with a model whose "
        "results come from direct calls, parses every written file back and reads the artists of every figure. Non-trivial: "
        "distinct (operation history, inputs).")
EVENTS = ["calls", "outputs compared", "objects left alone", "files parsed", "rows compared", "refusals seen", "plots read",
          "points compared", "error bars compared", "figures saved", "asymmetric limits",
          "inputs changed in place", "written after the inputs changed"]

STATS = list(stat.STATS) + ["gradev"]
SLOW = {"pdev", "theo1", "mtotdev", "ttotdev", "htotdev"}
BAD = ["notafunction", "madev", "mtie_phase_fast", "frequency2phase", "phase2frequency", "tau_generator", "psd2allan", "np",
       "calc_hdev_phase", "trim_data", "three_cornered_hat_phase", "", "dev", "ADEV", "edf_simple", "gcodev", "psd_piecewise_to_adev",
       "adev2psd_piecewise_approx", "uncertainty_estimate", "os", "__name__", "remove_small_ns"]


def inputs(ctx):
    r = ctx.r
    N = gen.length(ctx, 12, 400)
    x = gen.record(ctx, N, kinds=gen.NOISY)
    rate = gen.rate(ctx)
    dt = r.choice(["phase", "phase", "freq"])
    u = r.random()
    if u < .3:
        taus = None
    elif u < .5:
        taus = r.choice(["all", "octave", "decade"])
    else:
        ms = gen.factors(ctx, max(1, N // 4), k=5)
        taus = gen.request(ctx, sorted(set(ms + [2])), rate)
    if r.random() < .2:
        x = list(x)
    return x, rate, dt, taus


def eq(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) == type(b) and a == b
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(eq(p, q) for p, q in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def copy(v):
    return v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v


def pick(ctx, inp):
    n = len(inp[0])
    name = ctx.r.choice(STATS)
    if name in SLOW and (n > 120 or isinstance(inp[3], str) and n > 60):
        name = ctx.r.choice(["adev", "oadev", "mdev", "tdev", "hdev", "ohdev", "totdev", "tierms", "mtie", "gradev"])
    if name == "mtie" and n > 200 and isinstance(inp[3], str):
        name = "oadev"
    return name


class Model:
    def __init__(self, o, inp):
        self.o, self.inp, self.out, self.id = o, inp, None, None
        self.keep = None if inp is None else copy(inp[0])

    def verify(self, ctx):
        o = self.o
        if self.inp is not None:
            x, rate, dt, taus = self.inp
            ctx.check(eq(o.inp["data"], x) and eq(x, self.keep), "inputs", "stored data changed")
            ctx.check(o.inp["rate"] == rate and o.inp["data_type"] == dt and eq(o.inp["taus"], taus), "inputs",
                      "stored inputs %r" % {k: o.inp[k] for k in ("rate", "data_type", "taus")})
        if self.out is None:
            ctx.check(all(o.out.get(k) is None for k in ("taus", "stat", "stat_err", "stat_n", "stat_id")), "output",
                      "output before any computation: %r" % o.out)
        else:
            for k, v in zip(("taus", "stat", "stat_err", "stat_n"), self.out):
                ctx.check(eq(o.out[k], v), "output", "stored %s of %s differs from the statistic's result" % (k, self.id),
                          stored=o.out[k], direct=v)
            ctx.check(o.out["stat_id"] == self.id, "label", "output labelled %r, computed %r" % (o.out["stat_id"], self.id))
            ctx.obs("outputs compared")


def direct(ctx, name, inp):
    """what the statistic returns, or None when it refuses"""
    x, rate, dt, taus = inp
    try:
        return getattr(ctx.at, name)(copy(x), rate=rate, data_type=dt, taus=taus)
    except Exception as e:
        return e


def compute(ctx, m, name=None):
    """one monitored compute on model m; True if it succeeded"""
    name = name or pick(ctx, m.inp)
    want = direct(ctx, name, m.inp)
    if isinstance(want, Exception):
        ctx.refuses("refused", "Dataset.compute(%r) where the statistic itself raises" % name, m.o.compute, name)
        return False
    res = ctx.call(m.o.compute, name)
    m.out, m.id, m.inp_at = want, name, m.inp
    ctx.check(isinstance(res, dict) and set(res) >= {"taus", "stat", "stat_err", "stat_n"}, "return", "compute returned %r" % (res,))
    for k, v in zip(("taus", "stat", "stat_err", "stat_n"), want):
        ctx.check(eq(res[k], v), "return", "compute(%r) returned another %s than the statistic" % (name, k))
    m.verify(ctx)
    return True


def new(ctx):
    at, r = ctx.at, ctx.r
    inp = inputs(ctx)
    x, rate, dt, taus = inp
    u = r.random()
    if u < .4:
        o = ctx.call(at.Dataset, data=x, rate=rate, data_type=dt, taus=taus)
    elif u < .6:
        o = ctx.call(at.Dataset, x, rate, dt, taus)
    elif u < .75 and rate == 1.0 and dt == "phase" and taus is None:
        o = ctx.call(at.Dataset, x)
    else:
        o = ctx.call(at.Dataset)
        if r.random() < .3:
            ctx.call(o.set_input, [1.0, 2.0, 3.0], rate=7.0, data_type="freq", taus=[1, 2])
        ctx.call(o.set_input, x, rate=rate, data_type=dt, taus=taus)
    return Model(o, inp)


def inplace(ctx, m):
    """new values in the very objects the dataset holds"""
    r = ctx.r
    for k, lo in (("data", -3), ("taus", None)):
        v = m.o.inp[k]
        if k == "taus" and (v is None or isinstance(v, str) or r.random() < .5):
            continue
        if not isinstance(v, (np.ndarray, list)) or isinstance(v, np.ndarray) and not v.flags.writeable:
            continue
        if k == "taus":
            w = list(v)
            r.shuffle(w)
            v[:] = w[:len(v)]
            if r.random() < .5 and len(v) > 1:
                v[0] = v[1]
        elif r.random() < .5:
            v[:] = [q * -2.5 for q in v]
        else:
            v[r.randrange(len(v))] += 10 * float(np.ptp(v)) + 1
        m.inp = tuple(v if j == {"data": 0, "taus": 3}[k] else q for j, q in enumerate(m.inp))
    m.keep = copy(m.inp[0])
    ctx.obs("inputs changed in place")


def setinput(ctx, m):
    r = ctx.r
    x0 = m.inp[0]
    m.inp = inputs(ctx)
    if r.random() < .25:
        m.inp = (x0,) + m.inp[1:3] + (r.choice([None, "all", "octave"]),)      # the same record once more
    x, rate, dt, taus = m.inp
    u = r.random()
    if u < .1:
        m.inp = (x, rate, "phase", None)
        ctx.call(m.o.set_input, x, rate)
    elif u < .3:
        m.inp = (x, 1.0, "phase", None)
        ctx.call(m.o.set_input, x)
    elif u < .5:
        ctx.call(m.o.set_input, x, rate, dt, taus)
    else:
        ctx.call(m.o.set_input, x, rate=rate, data_type=dt, taus=taus)
    m.keep = copy(x)


TOKEN = re.compile(r"^-?\d(\.\d+)?e[+-]\d\d+$")


def number(ctx, tok, v, digits, what):
    v = float(v)
    if math.isnan(v) or math.isinf(v):
        ctx.check(tok.lower() in ("nan", "inf", "-inf"), "file", "%s: %r for %r" % (what, tok, v))
        return
    ctx.check(bool(TOKEN.match(tok)), "file", "%s written as %r" % (what, tok))
    got = sum(c.isdigit() for c in tok.split("e")[0])
    ctx.check(got == digits, "digits", "%s written as %r, %d digits requested" % (what, tok, digits))
    want = "%.*e" % (digits - 1, v)
    if Decimal(tok) != Decimal(want):
        d = abs(Decimal(tok) - Decimal(v))
        lim = Decimal(10) ** (Decimal(want).adjusted() - digits + 1) * Decimal("0.5")
        ctx.check(d <= lim * Decimal("1.000000001"), "file", "%s written as %r, computed %.17g" % (what, tok, v))


def parsed(s):
    try:
        return float(s)
    except ValueError:
        return None


def parse(ctx, m, path, digits, header, first=None):
    rate = m.inp_at[1]
    text = open(path).read()
    lines = text.split("\n")
    ctx.check(lines[-1] == "", "file", "last line not terminated")
    lines = lines[:-1]
    heads = [l for l in lines if l.startswith("#")]
    ctx.check(lines[:len(heads)] == heads, "file", "header lines among the rows")
    ctx.check(any("Allantools" in h for h in heads), "header", "no version in header %r" % heads)
    got = [l.split(": ", 1)[1] for l in heads if l.startswith("# Input data rate: ")]
    ctx.check(len(got) >= 1 and parsed(got[0]) == float(rate), "header", "rate %r recorded as %r" % (rate, got))
    for k, v in list(header.items()) + [("Input data type", m.inp_at[2])]:
        ctx.check(heads.count("# %s: %s" % (k, v)) >= 1, "header", "header parameter %r: %r missing from %r" % (k, v, heads))
    ctx.check(len(heads) == 3 + len(header), "header", "%d header lines for %d parameters: %r" % (len(heads), len(header), heads))
    rest = lines[len(heads):]
    ctx.check(len(rest) >= 1, "file", "no field line")
    f = rest[0].split()
    ctx.check(f == ["AF", "Tau", "N", "alpha", "min_" + m.id, m.id, "max_" + m.id], "file", "field line %r" % rest[0])
    rows = rest[1:]
    t, d, e, n = m.out
    ctx.check(len(rows) == len(t), "file", "%d rows for %d averaging times" % (len(rows), len(t)))
    if isinstance(e, list):
        lo, hi = e
        ctx.obs("asymmetric limits")
    else:
        lo = hi = np.asarray(e) / 2
    for i, row in enumerate(rows):
        c = row.split()
        ctx.check(len(c) == 7, "file", "row %r" % row)
        ctx.check(c[0] == str(int(round(float(t[i]) * float(rate)))), "file", "averaging factor %s in row of tau=%r at rate %r" % (c[0], t[i], rate))
        ctx.check(c[2] == str(int(n[i])), "file", "count %s, computed %r" % (c[2], n[i]))
        number(ctx, c[1], t[i], digits, "tau")
        number(ctx, c[5], d[i], digits, "deviation")
        number(ctx, c[4], d[i] - lo[i], digits, "lower limit")
        number(ctx, c[6], d[i] + hi[i], digits, "upper limit")
        ctx.obs("rows compared")
    ctx.obs("files parsed")


def write(ctx, m, tmp):
    r = ctx.r
    path = os.path.join(tmp, r.choice(["a.txt", "b.txt", "c.dat"]))
    if r.random() < .3:
        with open(path, "w") as f:
            f.write("old content\n" * r.choice([1, 1000]))
    digits = r.choice([1, 2, 3, 5, 5, 8, 12, 16])
    header = {}
    for _ in range(r.choice([0, 0, 1, 3, 3, 8, 70])):
        header["".join(r.choice("abcdefgh xyz_") for _ in range(6)).strip() or "k"] = r.choice(
            [1, 2.5, "text", None, "a: b", True, [1, 2], 0, 0.0, "", False, [], -1, 1e-12, "x" * 200, "0", ("a", 2), {}, np.float64(0)])
    h0 = dict(header)
    kw = {}
    if digits != 5 or r.random() < .5:
        kw["digits"] = digits
    if header or r.random() < .3:
        kw["header_params"] = header
    ctx.call(m.o.write_results, path, **kw)
    ctx.check(header == h0, "header", "header parameters changed")
    if m.inp_at[1:3] != m.inp[1:3]:
        ctx.obs("written after the inputs changed")
    parse(ctx, m, path, digits, header)
    m.verify(ctx)
    return path


class Figure:
    def __init__(self, p):
        self.p, self.series = p, []

    def verify(self, ctx):
        ax = self.p.ax
        ctx.check(ax.get_xscale() == "log" and ax.get_yscale() == "log", "axes", "axes %s, %s" % (ax.get_xscale(), ax.get_yscale()))
        ctx.check(len(self.p.fig.axes) == 1, "axes", "%d axes" % len(self.p.fig.axes))
        lines = list(ax.lines)
        ctx.check(len(lines) == len(self.series), "plot", "%d lines for %d plotted datasets" % (len(lines), len(self.series)))
        bars = [c for c in ax.containers]
        ctx.check(len(bars) == sum(s[3] for s in self.series), "plot", "%d error bar sets" % len(bars))
        k = 0
        for (t, d, e, eb), l in zip(self.series, lines):
            ctx.check(np.array_equal(np.asarray(l.get_xdata(), float), np.asarray(t, float)) and
                      np.array_equal(np.asarray(l.get_ydata(), float), np.asarray(d, float), equal_nan=True), "plot",
                      "plotted points differ from the computed ones", x=l.get_xdata(), y=l.get_ydata(), taus=t, devs=d)
            ctx.obs("points compared", len(t))
            if not eb:
                continue
            lo, hi = e if isinstance(e, list) else (e, e)
            seg = bars[k].lines[2][0].get_segments()
            ctx.check(len(seg) == len(t), "plot", "%d error bars for %d points" % (len(seg), len(t)))
            for i, s in enumerate(seg):
                s = np.asarray(s)
                tol = 1e-12 * (abs(d[i]) + abs(hi[i]) + abs(lo[i]))
                ctx.check(s.shape == (2, 2) and np.all(s[:, 0] == t[i]), "plot", "error bar %d at %s" % (i, s))
                ctx.near(s[:, 1].min(), d[i] - lo[i], tol, "plot", "lower end of error bar %d" % i)
                ctx.near(s[:, 1].max(), d[i] + hi[i], tol, "plot", "upper end of error bar %d" % i)
                ctx.obs("error bars compared")
            k += 1
        ctx.obs("plots read")


def plot(ctx, fig, m):
    r = ctx.r
    eb = r.random() < .5
    kw = {}
    if eb or r.random() < .3:
        kw["errorbars"] = eb
    if r.random() < .3:
        kw["grid"] = r.random() < .5
    if r.random() < .2:
        kw["label"] = "x"
    ctx.call(fig.p.plot, m.o, **kw)
    t, d, e, n = m.out
    fig.series.append((np.array(t), np.array(d), [np.array(v) for v in e] if isinstance(e, list) else np.array(e), eb))
    ctx.check(fig.p.ax.get_ylabel() == m.id, "label", "axis labelled %r for %r" % (fig.p.ax.get_ylabel(), m.id))
    fig.verify(ctx)
    m.verify(ctx)


def history(ctx):
    """datasets and files"""
    r = ctx.r
    tmp = tempfile.mkdtemp(prefix="verif-c22-")
    ops = []
    try:
        ms = [new(ctx)]
        for _ in range(r.randint(4, 18)):
            m = r.choice(ms)
            u = r.random()
            if u < .12 and len(ms) < 4:
                ms.append(new(ctx))
                ops.append("new")
                if r.random() < .3:      # shared input array
                    k = ms[-1]
                    k.inp = (m.inp[0],) + k.inp[1:]
                    ctx.call(k.o.set_input, k.inp[0], rate=k.inp[1], data_type=k.inp[2], taus=k.inp[3])
                    k.keep = copy(k.inp[0])
            elif u < .3:
                before = m.out
                setinput(ctx, m)
                ops.append("set")
            elif u < .4 and sum(q.inp[0] is m.inp[0] for q in ms) == 1:
                name = m.id if m.id and r.random() < .6 else pick(ctx, m.inp)
                compute(ctx, m, name)
                inplace(ctx, m)
                m.verify(ctx)
                compute(ctx, m, name)
                ops.append("in place:" + name)
            elif u < .65:
                ops.append("compute:%s" % compute(ctx, m))
            elif u < .75:
                b = r.choice(BAD)
                ctx.refuses("name", "Dataset.compute(%r)" % b, m.o.compute, b)
                ops.append("bad")
            elif u < .9 and m.out is not None:
                write(ctx, m, tmp)
                ops.append("write")
            else:
                # compute then write, the usual way
                if compute(ctx, m):
                    write(ctx, m, tmp)
                    ops.append("compute+write")
            for q in ms:
                q.verify(ctx)
                if q is not m:
                    ctx.obs("objects left alone")
        ctx.say("history %s", ops)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.note("h", ctx.idx)


def every(ctx):
    """every statistic once per round with file"""
    name = STATS[ctx.idx % len(STATS)]
    r = ctx.r
    tmp = tempfile.mkdtemp(prefix="verif-c22-")
    try:
        N = r.randint(20, 100)
        x = gen.record(ctx, N, kinds=gen.NOISY)
        rate = gen.rate(ctx)
        m = Model(ctx.call(ctx.at.Dataset, x, rate=rate, data_type=r.choice(["phase", "freq"]), taus=r.choice(["octave", None, "all", "decade"])), None)
        m.inp = (x, rate, m.o.inp["data_type"], m.o.inp["taus"])
        m.keep = x.copy()
        ctx.say("%s", name)
        if compute(ctx, m, name):
            write(ctx, m, tmp)
            write(ctx, m, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.note("every", name, x, float(rate))


def plots(ctx):
    r, at = ctx.r, ctx.at
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    tmp = tempfile.mkdtemp(prefix="verif-c22-")
    try:
        ms = []
        while len(ms) < r.randint(1, 3):
            m = new(ctx)
            if compute(ctx, m):
                ms.append(m)
        figs = []
        for _ in range(r.randint(1, 5)):
            if not figs or r.random() < .4:
                figs.append(Figure(ctx.call(at.Plot, no_display=True)))
            plot(ctx, r.choice(figs), r.choice(ms))
            for f in figs:
                f.verify(ctx)
        if r.random() < .3:
            # a plot stays as drawn when its dataset is computed again
            m = r.choice(ms)
            compute(ctx, m)
            for f in figs:
                f.verify(ctx)
        if r.random() < .15:
            f = r.choice(figs)
            a, b = os.path.join(tmp, "a.png"), os.path.join(tmp, "b.png")
            ctx.call(f.p.save, a)
            f.p.fig.savefig(b)
            ia, ib = plt.imread(a), plt.imread(b)
            ctx.check(ia.shape == ib.shape and np.array_equal(ia, ib), "save", "the saved picture is not this plot's figure")
            ctx.obs("figures saved")
        ctx.say("%d plots of %d datasets", len(figs), len(ms))
    finally:
        plt.close("all")
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.note("p", ctx.idx)


def refused(ctx):
    r, at = ctx.r, ctx.at
    m = new(ctx)
    b = BAD[ctx.idx % len(BAD)]
    ctx.say("compute(%r)", b)
    ctx.refuses("name", "Dataset.compute(%r)" % b, m.o.compute, b)
    m.verify(ctx)
    if compute(ctx, m):
        ctx.refuses("name", "Dataset.compute(%r)" % b, m.o.compute, b)
        m.verify(ctx)
    d = ctx.call(at.Dataset)
    ctx.refuses("empty", "compute without data", d.compute, "adev")
    ctx.refuses("empty", "write without results", d.write_results, "/dev/null")
    ctx.note("ref", b, ctx.idx)


FAMILIES = [Family(history, 1000, 20000), Family(every, 450, 9000), Family(plots, 160, 3000, timeout=120), Family(refused, 88, 880)]
