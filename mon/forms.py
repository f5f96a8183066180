"""Equivalent call forms: the documented parameter order and defaults of the public functions.

`form(r, fn, a, k)` rewrites a call into another one that means the same: arguments equal to the documented default are left
out or spelled, optional arguments go by position or by keyword.  Required arguments stay as the check passed them."""
STAT = [("rate", 1.0), ("data_type", "phase"), ("taus", None)]
SIG = {n: (1, STAT) for n in ("adev oadev mdev tdev pdev hdev ohdev totdev ttotdev mtotdev htotdev theo1 tierms mtie mtie_phase_fast").split()}
SIG.update({
    "gcodev": (2, STAT), "gradev": (1, STAT + [("ci", 0.9), ("noisetype", "wp")]),
    "psd2allan": (1, [("f", 1.0), ("kind", "adev"), ("base", 2)]),
    "adev2psd_piecewise_approx": (2, [("vartype", "adev"), ("mu_tol", 1e-5)]),
    "tau_generator": (2, [("taus", None), ("v", False), ("even", False), ("maximum_m", -1)]),
    "frequency2fractional": (1, [("mean_frequency", -1)]),
    "confidence_interval": (2, [("ci", 0.68268949213708585)]),
    "confidence_interval_noiseID": (3, [("dev_type", "adev"), ("data_type", "phase"), ("ci", 0.68268949213708585)]),
    "autocorr_noise_id": (2, [("data_type", "phase"), ("dmin", 0), ("dmax", 2)]),
    "edf_greenhall": (4, [("overlapping", False), ("modified", False), ("verbose", False)]),
    "lag1_acf": (1, [("detrend_deg", 1)]), "detrend": (1, [("deg", 1)]),
    "numpy_psd": (1, [("f_sample", 1.0)]), "scipy_psd": (1, [("f_sample", 1.0), ("nr_segments", 4)]),
    "white": (0, [("num_points", 1024), ("b0", 1.0), ("fs", 1.0)]),
    "brown": (0, [("num_points", 1024), ("b_minus2", 1.0), ("fs", 1.0)]),
    "violet": (0, [("num_points", 1024), ("b2", 1), ("fs", 1)]),
    "pink": (0, [("num_points", 1024), ("depth", 80)]), "iterpink": (0, [("depth", 20)]),
    "timmer_koenig_from_psd": (5, [("output", "phase"), ("seed", None)]),
    "Noise": (0, [("nr", 2), ("qd", 1), ("b", 0)]), "Noise.set_input": (0, [("nr", 2), ("qd", 1), ("b", 0)]),
    "Dataset": (0, [("data", None), ("rate", 1.0), ("data_type", "phase"), ("taus", None)]),
    "Dataset.set_input": (1, [("rate", 1.0), ("data_type", "phase"), ("taus", None)]),
    "Dataset.write_results": (1, [("digits", 5), ("header_params", {})]),
})
for _n in ("phase_psd_from_qd", "frequency_psd_from_qd"):
    SIG["Noise." + _n] = (0, [("tau0", 1.0)])
for _n in ("adev_from_qd", "mdev_from_qd", "pdev_from_qd"):
    SIG["Noise." + _n] = (0, [("tau0", 1.0), ("tau", 1.0)])
for _n in ("oadev_realtime", "ohdev_realtime", "tdev_realtime"):
    SIG[_n] = (0, [("afs", [1]), ("tau0", 1.0), ("auto_afs", False), ("pts_per_decade", 4)])


def _same(v, d):
    if d is None or isinstance(d, (bool, str)):
        return type(v) is type(d) and v == d
    if isinstance(d, (list, dict)):
        return type(v) is type(d) and v == d
    return type(v) in (int, float) and v == d


def form(r, fn, a, k):
    q = getattr(fn, "__qualname__", "")
    if not str(getattr(fn, "__module__", "")).startswith("allantools") or q not in SIG:
        return a, k
    need, opt = SIG[q]
    if len(a) < need or len(a) > need + len(opt) or any(x not in dict(opt) for x in k):
        return a, k
    given = {n: v for (n, _), v in zip(opt, a[need:])}
    if any(n in given for n in k):
        return a, k
    given.update(k)
    # leave out some arguments that equal their default, spell out some that were left out
    for n, d in opt:
        if n in given and _same(given[n], d) and r.random() < .6:
            del given[n]
        elif n not in given and r.random() < .1 and not isinstance(d, (list, dict)):
            given[n] = d
    pos = list(a[:need])
    if r.random() < .5:
        for n, d in opt:
            if n not in given or r.random() < .2:
                break
            pos.append(given.pop(n))
    return tuple(pos), given
