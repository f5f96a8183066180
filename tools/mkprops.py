"""Regenerates /verif/properties.jsonl (kept as the readable source of the property texts)."""
import json
A = "allantools/allantools.py"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     hook_needed=hook)))

p("C01", "Allan-family deviations equal their published definitions",
  "For every evenly spaced record, sampling rate and averaging factor, the Allan, overlapping Allan, modified Allan, time and parabolic deviations returned are the values given by their published (NIST SP1065 / Vernotte) defining sums over the whole record. The number of terms reported for each averaging time is the number of terms in that sum, and the error bar is the deviation divided by the square root of that number. A NaN inside the terms of such a sum makes the result NaN; it is never silently skipped.",
  ["inputs"], "all records (any length >= 3, offset, scale, noise character), all rates > 0, all averaging factors 1..N-1, phase or frequency input",
  "the tests compare a handful of fixed datasets with Stable32 tables at 1e-4 and only at tabulated taus; record edges, odd lengths, largest averaging factors, unusual rates and scales are never reached",
  [A], [("difference kernels and normalisation", A + ": calc_adev_phase, mdev, tdev, calc_pdev_phase, calc_gcodev_phase"), ("record preparation", A + ": input_to_phase, tau_generator, remove_small_ns")],
  ["return values of adev(), oadev(), mdev(), tdev(), pdev()"])

p("C02", "Hadamard deviations equal their published definitions",
  "For every evenly spaced record, sampling rate and averaging factor, the Hadamard and overlapping Hadamard deviations are the values given by the published third-difference sums over the whole record. The reported number of terms is the number of third differences actually available, and the error bar is the deviation divided by the square root of it.",
  ["inputs"], "all records, rates > 0 and averaging factors",
  "tests fix a few datasets and taus to four digits; boundaries where only a few third differences fit, and non-unit rates combined with strides, are not sampled",
  [A], [("third-difference kernel", A + ": calc_hdev_phase, hdev, ohdev")], ["return values of hdev(), ohdev()"])

p("C03", "Total deviations and Theo1 equal their published definitions",
  "For every evenly spaced record, rate and admissible averaging factor, the total, modified total, time total and Hadamard total deviations and Theo1 are the (bias-uncorrected) values obtained by literally extending or detrending-and-reflecting the record as published (SP1065, Howe 1999) and evaluating the defining sum. The Hadamard total deviation at averaging factor one is the overlapping Hadamard deviation. The number of terms and the error bar reported with each value are those of that sum.",
  ["inputs"], "all records, rates > 0 and admissible averaging factors (m <= N/3 for the modified and Hadamard totals, even m for Theo1)",
  "tests compare two or three datasets at tabulated octave taus with loose tolerances; odd averaging factors, the largest admissible factor and running-sum updates over long sub-sequences are barely reached",
  [A], [("end reflection", A + ": totdev"), ("sub-sequence detrend, reflection and running sums", A + ": calc_mtotdev_phase, calc_htotdev_freq"), ("Theo1 double sum", A + ": theo1")],
  ["return values of totdev(), mtotdev(), ttotdev(), htotdev(), theo1()"])

p("C04", "MTIE and TIErms are the extremes and rms over every window",
  "For every record and averaging factor m, MTIE is the largest peak-to-peak phase excursion over all windows of m+1 consecutive samples, and TIErms is the root-mean-square of all phase increments over m samples; both count N-m windows and neither depends on the sampling rate other than through the averaging-time axis. The fast power-of-two MTIE variant returns, for each level k, the largest peak-to-peak excursion over all windows of 2^(k+1) samples of its truncated record. MTIE never decreases with averaging time.",
  ["inputs"], "all records (including plateaus, ties, monotone ramps and extremes at either end), all averaging factors and window positions",
  "one tabulated dataset each; an extreme at the first or last sample or in the last window, ties and long windows are not sampled, and the fast variant has no reference",
  [A], [("rolling window extremes", A + ": mtie, mtie_rolling_window"), ("binary decomposition", A + ": mtie_phase_fast"), ("increments", A + ": tierms")],
  ["return values of mtie(), mtie_phase_fast(), tierms()"])

p("C05", "Deviations ignore what they must and scale with units",
  "Adding a constant phase offset changes no deviation; adding a constant frequency offset changes none of the Allan, Hadamard, total, Theo1, parabolic or modified families; adding a linear frequency drift changes none of the Hadamard family. Multiplying the data by a constant multiplies every deviation by its magnitude, and reinterpreting the same samples at another rate rescales averaging times and frequency-like deviations by the rate ratio while leaving time-like statistics (TDEV, time total, MTIE, TIErms) unchanged. Time-reversing or negating the record leaves the overlapping, total, Theo1, MTIE and TIErms statistics unchanged.",
  ["inputs"], "all records, all statistics, all offsets, drifts, scale factors and rates within floating-point conditioning",
  "relations between two runs on related inputs are never asserted by the tests, which check isolated values",
  [A], [("second/third differences and normalisation by tau", A + ": all *dev functions"), ("end-point handling", A + ": totdev, mtotdev, htotdev")],
  ["pairs of return values of every statistic"])

p("C06", "Different estimators agree where theory says they coincide",
  "At averaging factor one the Allan, overlapping, modified, parabolic and total deviations coincide, as do the Hadamard, overlapping Hadamard and Hadamard total deviations; TDEV and time-total are the modified deviations times tau/sqrt(3). A non-overlapping deviation at factor m equals the same deviation at factor one of the record decimated by m, and the overlapping variance is the term-weighted mean of the non-overlapping variances over all m starting offsets. The three-clock and gap-free special cases (codeviation of a record with itself, gap-resistant deviation without gaps) equal the overlapping deviation, MTIE is never below TIErms, and the averages reported as n agree between equivalent calls.",
  ["inputs"], "all records, rates and averaging factors",
  "tests treat each function separately against its own table, so mutual consistency is never checked off the tabulated points",
  [A], [("shared kernels and special cases", A + ": calc_adev_phase, calc_hdev_phase, calc_pdev_phase, htotdev, gcodev, gradev")],
  ["return values of pairs of statistics"])

p("C07", "Phase and frequency are interchangeable representations",
  "Every statistic gives the same result for a frequency record as for the phase record obtained by integrating it at that rate (with its mean removed, which only MTIE and TIErms can notice), and one sample more phase than frequency is used. Integrating then differentiating returns the mean-removed frequency record and differentiating then integrating returns the phase record up to offset and ramp; leading and trailing NaNs (only those) are trimmed before integration. Conversions to radians and from Hz to fractional frequency are linear with the documented factors.",
  ["inputs"], "all records, rates, and placements of leading/trailing/interior NaNs",
  "tests use frequency input on a few datasets at one rate; the two representations are not compared, and the converters have almost no tests",
  [A], [("integration with mean removal and NaN trimming", A + ": frequency2phase, trim_data, input_to_phase"), ("differentiation", A + ": phase2frequency"), ("unit conversions", A + ": phase2radians, frequency2fractional")],
  ["return values of the converters and of every statistic called with data_type='freq'"])

p("C08", "Averaging times: every requested one is honoured, aligned and valid",
  "Whatever averaging times are requested (a keyword, or a list or array in any order, with duplicates, zeros, negatives, too-large or non-multiple values), the statistic is evaluated exactly once for each distinct integer averaging factor nearest to a valid request, reported in increasing order as factor/rate, and only for factors with at least two terms. The keywords select 1..N, powers of two, 1-2-4 per decade and about ten points per decade, and Theo1 only even factors. All returned arrays have equal length and element i of each belongs to averaging time i; thinning a tau list returns an increasing subset with at most the requested number per decade.",
  ["inputs", "configurations"], "all record lengths, rates and tau requests, all statistics",
  "tests check five keyword cases at one length and rate and one list; selections at other rates, orders, duplicates and boundaries are not covered",
  [A], [("tau list generation and cleaning", A + ": tau_generator"), ("rejection of small n", A + ": remove_small_ns"), ("thinning", A + ": tau_reduction")],
  ["return values of every statistic, of tau_generator() and tau_reduction()"])

p("C09", "Computing a statistic is pure, repeatable and representation-independent",
  "No statistic, conversion or analysis function changes the arrays or lists passed to it, the process-wide random state or numeric-error settings, and its result depends only on the values passed: repeating a call, interleaving other calls, asking for other averaging times at the same time, or running calls concurrently in threads gives the same numbers. The same samples given as list, tuple, float, integer (any width) or single-precision array, read-only or strided view give the same result without overflow. Later changes to the input or to a returned array affect no other result.",
  ["inputs", "histories", "schedules"], "all statistics, all interleavings and thread schedules of calls, all container and integer types",
  "tests call each function once on fresh lists; mutation, aliasing, integer overflow and concurrent use are never observed",
  [A, "allantools/ci.py", "allantools/noise.py", "allantools/mask.py"], [("local arrays only, no module state", A + ": every statistic"), ("conversion to float arrays", A + ": input_to_phase, tau_generator, phase2frequency")],
  ["arguments before/after and results of every public function"])

p("C10", "Streaming statistics equal the batch statistic at every prefix",
  "After every single sample fed to a streaming overlapping Allan, overlapping Hadamard or time/modified deviation object, each averaging factor's value equals the batch statistic of the samples received so far (and is zero while too few have arrived), for any sample interval and any list of factors. In automatic mode the factors grow on a logarithmic grid without repeats, each value being the exact batch value from the moment it appears. Feeding frequency samples equals feeding their integrated phase, and objects never influence each other.",
  ["inputs", "histories"], "all sample streams, all prefixes, all factor lists, automatic or fixed mode, phase or frequency feeds, interleaved objects",
  "tests check the final value on two datasets with fixed factors at unit interval; intermediate prefixes, automatic mode values, other intervals and interleaving are not checked",
  ["allantools/realtime.py"], [("running sums", "allantools/realtime.py: update_S, update_S3n, update_dev"), ("automatic factor growth", "allantools/realtime.py: update_af, add_af"), ("frequency integration", "allantools/realtime.py: add_frequency")],
  ["devs(), taus(), mdev() after every add_phase()/add_frequency()"], [("S / So", "running sums per averaging factor", "allantools/realtime.py")])

p("C11", "Gap-resistant deviation uses exactly the complete terms",
  "For any pattern of missing samples (NaN), the gap-resistant deviation at each averaging time is the overlapping Allan deviation averaged over exactly those second differences whose three samples are all present, and the reported count is the number of them; with no gaps it is the overlapping Allan deviation. Its two error arrays are the distances from the deviation down and up to the chi-squared confidence limits for the requested confidence level, assumed noise type and the number of samples present. Averaging times without at least two complete terms are not reported.",
  ["inputs"], "all gap patterns (isolated, blocks, ends, periodic, commensurate with the averaging factor), rates, confidence levels and noise types",
  "one dataset with one gap and a factor-of-e tolerance; error bars are never looked at",
  [A, "allantools/ci.py"], [("NaN-aware averaging", A + ": calc_gradev_phase, gradev"), ("error bars", "allantools/ci.py: edf_simple, confidence_interval")],
  ["return values of gradev()"])

p("C12", "Codeviation and three-cornered hat separate clocks consistently",
  "The Groslambert codeviation of two records has the magnitude of the square root of the mean product of their overlapping second differences, is symmetric in its arguments, never exceeds the geometric mean of the two overlapping Allan deviations and equals it for identical records. The three-cornered hat returns, for each averaging time, the square root of half of (var AB + var CA - var BC), or zero where that is negative, for whichever statistic it is given, and is symmetric under exchanging AB with CA. For three independent clocks both recover the individual clock's own deviation.",
  ["inputs"], "all triples/pairs of equal-length records, rates, tau requests and statistics",
  "one test whose comparison result is discarded and one that checks only the tau list",
  [A], [("covariance kernel", A + ": gcodev, calc_gcodev_phase"), ("variance algebra", A + ": three_cornered_hat_phase")],
  ["return values of gcodev(), three_cornered_hat_phase()"])

p("C13", "Confidence intervals hold the stated chi-squared probability",
  "For every deviation, equivalent degrees of freedom and confidence level in (0,1), the limits returned are the equal-tailed chi-squared limits, so that the stated probability lies between them; they scale with the deviation, nest as the level grows and tighten towards the deviation as degrees of freedom grow. The noise-identifying variant gives the interval for the identified noise, the given statistic, averaging factor and record length. Over repeated simulated records the interval covers the true deviation about as often as stated.",
  ["inputs"], "all deviations > 0, degrees of freedom > 0, confidence levels, statistics and records",
  "tests check about a hundred Stable32 rows at one confidence level with few digits; other levels, small degrees of freedom and actual coverage are not tested",
  ["allantools/ci.py"], [("chi-squared quantiles", "allantools/ci.py: confidence_interval"), ("composition", "allantools/ci.py: confidence_interval_noiseID")],
  ["return values of confidence_interval(), confidence_interval_noiseID()"])

p("C14", "Equivalent degrees of freedom follow the published formulas",
  "For every noise exponent, difference order, averaging factor, record length and estimator flavour inside the published domain, the equivalent degrees of freedom equal the published algorithm (Greenhall-Riley) or table formula (SP1065 Tables 5, 7, 8). They are positive and finite, grow with record length, are not materially less for an overlapped than for a non-overlapped estimator once the record spans many averaging times, and pass continuously through the algorithm's internal case boundaries. They agree with the exact degrees of freedom of the estimator's quadratic form for noises whose covariance is known in closed form.",
  ["inputs"], "alpha in -4..2, d in 1..3 with alpha+2d>1, all m and N in domain, overlapped/non-overlapped, modified/unmodified",
  "tests visit a few (alpha, m, N) points of one noise type through rounded Stable32 limits; most of the algorithm's cases and table entries are never executed",
  ["allantools/ci.py"], [("Greenhall algorithm and tables", "allantools/ci.py: edf_greenhall, greenhall_*"), ("approximate formulas", "allantools/ci.py: edf_simple, edf_totdev, edf_mtotdev")],
  ["return values of the edf_* functions"])

p("C15", "Noise identification finds the true power-law exponent",
  "For records of power-law noise with some hundreds of points left after averaging, lag-1 noise identification returns the integer exponent of the generating noise for phase and frequency input alike: for white and random-walk noises at every averaging factor, for flicker noises at small averaging factors and never more than one step away at large ones; its float and integer estimates, differencing count and lag statistic are consistent with each other and with the published recursion. The identification is unaffected by scaling, offset and polynomial trend up to drift, and records with fewer than 30 points after averaging are refused. The R(n) and B1 ratios equal the ratio of the variances they name at the requested averaging factor for every sampling rate, and their theoretical values follow the published expressions.",
  ["inputs"], "all power-law noises alpha in -2..2, averaging factors, record lengths, scales, trends and rates",
  "tests compare identified integers on two measured datasets at unit rate",
  ["allantools/ci.py"], [("lag-1 autocorrelation recursion", "allantools/ci.py: autocorr_noise_id, lag1_acf, detrend"), ("variance ratios", "allantools/ci.py: rn, b1, rn_theory, b1_theory, rn_boundary, b1_boundary")],
  ["return values of autocorr_noise_id(), rn(), b1(), b1_theory(), rn_theory()"])

p("C16", "Coloured-noise generators deliver the requested spectrum",
  "White, Brownian and violet noise of any length, level and sampling frequency have exactly the requested number of samples and a one-sided power spectral density equal to level*f^0, level*f^-2 and level*f^2: undoing the integration or differentiation recovers independent Gaussian samples of the implied variance. Pink noise has a 1/f spectrum and the requested length. The PSD estimators report density against the correct frequency axis, with total power equal to the signal's mean square, for even and odd lengths, and a seeded generator is reproducible.",
  ["inputs", "histories"], "all lengths, levels, sampling frequencies, seeds and repeated calls",
  "the test checks only output length and type at one length",
  ["allantools/noise.py"], [("scaling by level and sampling frequency", "allantools/noise.py: white, brown, violet"), ("Voss-McCartney", "allantools/noise.py: pink, iterpink"), ("PSD normalisation", "allantools/noise.py: numpy_psd, scipy_psd")],
  ["generated series and PSD estimates"])

p("C17", "Kasdin generator filters independent noise by the power law",
  "For every power-of-two length, discrete variance and exponent, the generated series has exactly the requested length and is the causal power-law filter (coefficients of (1-z)^(b/2)) applied to independent Gaussian samples of the given variance: undoing the filter recovers such samples with no wrap-around from the end to the beginning. Exponent 0 is the white sequence itself and -2 and -4 its first and second cumulative sums; changed inputs take effect at the next generation, objects do not influence each other, and a series once generated is not altered by later generations.",
  ["inputs", "histories"], "all lengths 2^k, variances, exponents b in [-4,0], and sequences of set_input/generate calls",
  "tests compare one or an average of thirty ADEVs with a 10-30% tolerance at unit spacing and skip failing exponents",
  ["allantools/noise_kasdin.py"], [("filter coefficients and zero-padded FFT convolution", "allantools/noise_kasdin.py: generateNoise")],
  ["time_series after generateNoise()"])

p("C18", "Predicted noise levels follow from the spectrum they claim",
  "For every discrete variance, exponent, sample interval and averaging time, the phase and frequency PSD coefficients reported for a Kasdin noise are those of the generated discrete process, and the predicted Allan, modified and parabolic deviations equal the integral of that spectrum through the statistic's transfer function (with the sampling bandwidth for phase noises, in the long-averaging limit). The predictions scale as the square root of the variance, and measured deviations of generated noise agree with them on average.",
  ["inputs"], "b in {0,-1,-2,-3,-4}, all variances, sample intervals and averaging times much longer than the interval",
  "tests use unit sample interval only, wide tolerances, and never the parabolic prediction or the frequency PSD",
  ["allantools/noise_kasdin.py"], [("coefficients", "allantools/noise_kasdin.py: phase_psd_from_qd, frequency_psd_from_qd, adev, mdev, adev_from_qd, mdev_from_qd, pdev_from_qd, c_avar, c_mvar")],
  ["return values of the prediction methods"])

p("C19", "PSD-to-deviation conversion integrates the transfer function",
  "For every one-sided spectrum sampled from zero frequency at any step, the conversion to Allan or modified Allan deviation succeeds and equals the numerical integral of the interpolated spectrum through the statistic's transfer function on the documented averaging-time grid (decade, octave or all). The resulting variance is linear in the spectrum, giving the step or the whole frequency vector is equivalent, and changing the frequency unit rescales averaging times and deviations accordingly. White-frequency and other power-law spectra yield their closed-form deviations in the resolved range.",
  ["inputs", "configurations"], "all spectra (lengths, shapes), frequency steps, bases and both kinds",
  "the only test draws a figure and asserts nothing",
  [A], [("interpolation, integrand and quadrature", A + ": psd2allan")], ["return values of psd2allan()"])

p("C20", "Piecewise PSD reconstruction is continuous and inverts to the deviation",
  "For any positive deviation curve whose variance has log-log slopes strictly inside the convergence range, on any increasing tau grid with well separated slope changes, the reconstructed piecewise power-law spectrum has one segment per distinct slope, exponents -slope-1, ascending break frequencies at which neighbouring segments meet continuously, and levels whose exact Allan (or Hadamard) integral reproduces the deviation of each pure segment. Converting it back gives the original curve: exactly for a single power law, and within a modest smooth factor around slope changes otherwise. Inadmissible or malformed input is rejected with an error.",
  ["inputs"], "all admissible deviation curves (single slope, many slopes, merged segments) and tau grids (decade, octave, irregular)",
  "no test calls these functions at all",
  [A], [("slope segmentation, level and break computation", A + ": adev2psd_piecewise_approx"), ("inverse integral", A + ": psd_piecewise_to_adev")],
  ["return values of adev2psd_piecewise_approx(), psd_piecewise_to_adev()"])

p("C21", "Synthesised clock noise follows the given piecewise spectrum",
  "For every piecewise power-law spectrum, duration and time step (even or odd number of samples), the synthesis returns duration/timestep real samples of zero mean whose spectrum at each bin of the documented frequency grid is, on average, the requested spectrum of the segment that contains it, boundaries included (a bin exactly on a break belongs to the segment above it). Frequency output is the exact time derivative of the phase output for the same seed, the amplitude scales with the square root of the level, and the same seed reproduces the same series. Inconsistent segment descriptions and too-short durations are rejected.",
  ["inputs", "histories"], "all segment counts, breaks, exponents, levels, durations, time steps and seeds",
  "no test calls the generator",
  ["allantools/noise.py"], [("spectrum sampling, Hermitian fill and inverse FFT", "allantools/noise.py: timmer_koenig_from_psd")],
  ["return values of timmer_koenig_from_psd()"])

p("C22", "Dataset, results file and plot report exactly what was computed",
  "Through any sequence of setting inputs and computing statistics, a dataset's stored output is exactly what the named statistic returns for the inputs currently set, labelled with its name, and other dataset objects are unaffected; names that are not statistics are refused. The results file contains one row per averaging time whose averaging factor, tau, count, deviation and limits equal the computed ones to the requested number of digits, plus the data type and rate they were computed with and every header parameter, replacing any previous content; inputs set later do not alter it. A plot shows exactly the computed averaging times, deviations and error bars on logarithmic axes.",
  ["inputs", "histories", "configurations"], "all call sequences, statistics, inputs, rates, digit counts and header parameters",
  "tests run each statistic once on ten points and never read the file or the plot back",
  ["allantools/dataset.py", "allantools/plot.py"], [("delegation and storage", "allantools/dataset.py: Dataset.compute, set_input"), ("text output", "allantools/dataset.py: write_results"), ("plotting", "allantools/plot.py: Plot.plot")],
  ["Dataset.out, the written file, the matplotlib artists"], [("inp / out", "current input and last result", "allantools/dataset.py")])

p("C23", "ITU masks return the standard's limit for every averaging time",
  "For every averaging time, each TDEV and MTIE mask returns the limit of its ITU-T recommendation (G.811, G.8272 class A and B, G.8272.1), in seconds, including at the segment boundaries. Within a segment the limit never decreases with averaging time, and at boundaries it is continuous to the rounding of the published coefficients.",
  ["inputs"], "all real averaging times > 0, every mask, both sides of every boundary",
  "tests take one point inside each segment (one of them against an absolute tolerance larger than the value)",
  ["allantools/mask.py"], [("piecewise limits", "allantools/mask.py")], ["return values of the mask functions"])

p("C24", "Unusable input is refused, never answered with numbers",
  "A zero or negative rate, an unknown data type, a record too short for any term, a request with no usable averaging time, or an unknown keyword or function name raises an error in every statistic and wrapper (Dataset, three-cornered hat, noise identification; not the unfinished mtie_phase_fast, which documents itself as incomplete), instead of returning fabricated, empty or misaligned results. Whenever a statistic does return, every reported value rests on at least two terms and is a finite non-negative number for finite input.",
  ["inputs", "configurations"], "all statistics and wrappers, all too-short record lengths, invalid rates, types, keywords and tau lists",
  "one test checks the zero rate for one statistic and one checks a misspelt function name",
  [A, "allantools/dataset.py", "allantools/ci.py"], [("input validation", A + ": input_to_phase, tau_generator, remove_small_ns, htotdev"), ("name checks", "allantools/dataset.py: Dataset.compute"), ("length check", "allantools/ci.py: autocorr_noise_id")],
  ["exceptions and return values of every public statistic"])

if __name__ == "__main__":
    import os
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for q in P:
            f.write(json.dumps(q, ensure_ascii=True) + "\n")
    print(len(P))
