#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property texts)."""
import json, os
R = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    R.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})


LIN = "tftb/processing/linear.py"
COH = "tftb/processing/cohen.py"
BASE = "tftb/processing/base.py"
REA = "tftb/processing/reassigned.py"
AFF = "tftb/processing/affine.py"
AMB = "tftb/processing/ambiguity.py"
POST = "tftb/processing/postprocessing.py"
FREQ = "tftb/processing/freq_domain.py"
TIME = "tftb/processing/time_domain.py"
PUT = "tftb/processing/utils.py"
UT = "tftb/utils.py"
FM = "tftb/generators/frequency_modulated.py"
AM = "tftb/generators/amplitude_modulated.py"
ANA = "tftb/generators/analytic_signals.py"
MISC = "tftb/generators/misc.py"
NOI = "tftb/generators/noise.py"
GUT = "tftb/generators/utils.py"

p("C01", "STFT equals the windowed Fourier sum at every time and frequency bin",
  "For every signal x, odd-length window w (half length L) and number of bins F, entry (k, c) of the short-time Fourier transform is the sum over lags tau, |tau| <= min(L, (F-1)//2) with sample c+tau inside the signal, of x[c+tau]*conj(w[L+tau])*exp(-2*pi*i*k*tau/F); the default window is a Hamming window of odd length about F/4. Hence the transform is linear in the signal, column c depends only on the samples around sample c, and each column satisfies Parseval.",
  ["inputs", "configurations"], "all signals, lengths N>=1, bin counts F>=1, odd windows (shorter or longer than F), label timestamps",
  "tests compare three STFTs of one 128-point chirp with the default window only; nothing pins lag placement, edges, windows or F != N",
  [LIN, BASE], [("lag range and circular placement of lags before the FFT", LIN + ": ShortTimeFourierTransform.run"), ("default window", BASE + ": BaseTFRepresentation._make_window")],
  ["ShortTimeFourierTransform(...).run()[0]"])
p("C02", "Spectrogram equals the squared, locally normalised windowed spectrum",
  "For every signal, odd window with non-zero centre, bin count F and integer time instants t, entry (k, c) of the spectrogram is the squared modulus of the F-point Fourier sum of x[t_c+tau]*conj(w[L+tau]) over the lags inside the signal, divided by the energy of the window samples actually used. It is therefore real and non-negative, scales with the square of the signal's amplitude, and each column sums to F times the locally weighted signal energy.",
  ["inputs", "configurations"], "all signals, windows with non-zero centre sample, F, and integer time instants inside the signal",
  "tests check one chirp with one Kaiser window and interior columns",
  [COH, LIN, BASE], [("lag range, window renormalisation and placement", COH + ": Spectrogram.run")], ["Spectrogram(...).run()[0]"])
p("C03", "Wigner-Ville distribution equals its definition, is real, keeps time marginal",
  "For every signal x of length N and bin count F, entry (k, c) of the Wigner-Ville distribution is the F-point Fourier sum over lags tau of x[c+tau]*conj(x[c-tau]), with |tau| <= min(c, N-1-c, (F-1)//2), plus the half-sum at lag F/2 when F is even and both samples exist. The result is real, column c sums to F*|x[c]|^2, and the frequency axis is k/(2F).",
  ["inputs", "configurations"], "all signals, lengths N>=1, bin counts 1<=F",
  "tests use N=128=F only, so neither odd lengths, F != N, nor the middle lag is reached",
  [COH, BASE], [("lag kernel", COH + ": WignerVilleDistribution.run")], ["WignerVilleDistribution(...).run()"])
p("C04", "Pseudo Wigner-Ville equals the window-weighted definition",
  "For every signal x, odd window h (half length L) and bin count F, entry (k, c) of the pseudo Wigner-Ville distribution is the real part of the F-point Fourier sum over lags |tau| <= min(c, N-1-c, (F-1)//2, L) of h[L+tau]*x[c+tau]*conj(x[c-tau]), plus the half-sum at lag F/2 when F is even, that lag is inside window and signal. Column c sums to F*Re(h[L])*|x[c]|^2 and the frequency axis is k/(2F).",
  ["inputs", "configurations"], "all signals, odd windows (shorter or longer than F), bin counts F",
  "tests check only total energy and reality of one 128-point signal with the default window",
  [COH, BASE], [("windowed lag kernel", COH + ": PseudoWignerVilleDistribution.run")], ["PseudoWignerVilleDistribution(...).run()"])
p("C05", "Smoothed pseudo Wigner-Ville equals its doubly smoothed definition",
  "For every signal, bin count F, odd frequency window h and odd positive time window g, entry (k, c) is the real part of the F-point Fourier sum over lags tau |tau| <= L of h[L+tau] (lag zero has weight one) times the g-weighted average (weights of the points available inside the signal, normalised to sum 1) of x[t_c+tau-p]*conj(x[t_c-tau-p]); even-length windows are rejected with ValueError. Column c therefore sums to F times the locally averaged signal power.",
  ["inputs", "configurations"], "all signals, windows, bin counts, integer time instants",
  "no test calls it", [COH], [("nested lag and smoothing loops", COH + ": smoothed_pseudo_wigner_ville")], ["smoothed_pseudo_wigner_ville(...)"])
p("C06", "Margenau-Hill distributions equal their definitions and keep the marginal",
  "For every signal x of length N <= F, entry (k, c) of the Margenau-Hill distribution is the real part of the F-point Fourier sum over all lags tau, with sample t_c-tau inside the signal, of x[t_c]*conj(x[t_c-tau]); its column sums are F*|x[t_c]|^2. The pseudo Margenau-Hill distribution has one column per sample and is the same sum weighted by an odd window h (half length L) over lags within L and (F-1)//2, so that column c sums to F*Re(h[L])*|x[c]|^2.",
  ["inputs", "configurations"], "all signals, time instants, bin counts F >= N, windows",
  "no test calls either class", [COH], [("lag range", COH + ": MargenauHillDistribution.run, PseudoMargenauHillDistribution.run")], ["MargenauHillDistribution(...).run()"])
p("C07", "Every representation returns consistent shapes and frequency axes",
  "Running any Cohen-class or linear representation on a signal of length N with F bins and T time instants returns a matrix of shape (F, T), the given time instants unchanged, and a frequency axis with exactly F entries; unspecified arguments default to T=N instants 0..N-1, F=N bins and an odd-length window. The axis holds the DFT bin frequencies (k/F wrapped to negative values for the upper half), or k/(2F) for the Wigner-Ville family, and multi-dimensional input is flattened.",
  ["inputs", "configurations"], "all signal lengths N (odd and even), bin counts F (F >= N for Margenau-Hill), time instants inside the signal (at most N of them where columns stand for the samples), window arguments",
  "tests use a 128-point signal and never look at the axes",
  [BASE, LIN, COH], [("frequency axis and defaults", BASE + ": BaseTFRepresentation.__init__")], ["freqs, ts, tfr.shape"])
p("C08", "Analysis never modifies its inputs and is repeatable",
  "No generator, analysis, measurement, post-processing or utility function modifies the arrays passed to it (signal, window, time instants, frequency axis, distribution, coordinates). Calling a function again, or run() again on the same representation object, gives the same result as the first time, whatever was called in between.",
  ["inputs", "histories"], "all argument arrays and all call sequences on one object",
  "tests call everything once with fresh temporaries",
  [BASE, LIN, COH, POST, PUT, FREQ, TIME, AMB, UT, REA], [("fresh work arrays per run", COH + " and " + LIN + ": run methods"), ("copies before in-place arithmetic", POST + ": renyi_information")], ["argument arrays after the call"])
p("C09", "FM generators return n unit-modulus samples and the documented iflaw",
  "fmconst, fmlin, fmhyp, fmpar, fmpower, fmsin and fmodany return, for all valid arguments, exactly the requested number of complex samples, each of modulus one. The instantaneous frequency law returned with them has the same length and is the documented function of time (constant, linear from start to end frequency, hyperbolic or power law through the two given points, parabola with the given coefficients, sinusoid between the given bounds).",
  ["inputs"], "all point counts, frequencies, centres, coefficients in the documented ranges",
  "one parameter set per generator is tested", [FM], [("phase exponentials and iflaw expressions", FM)], ["returned (signal, iflaw)"])
p("C10", "FM signal phase is the integral of the returned frequency law",
  "The phase of every FM generator's signal advances as 2*pi times the integral of the instantaneous frequency law returned with it: the phase is, up to a constant, 2*pi times an antiderivative of the law (for fmodany the cumulative sum of the given law). The phase origin is where documented: fmconst, fmlin and fmodany have phase zero at the time centre.",
  ["inputs"], "all point counts, frequencies, centres, coefficients in the documented ranges",
  "no test relates phase to frequency law", [FM], [("phase polynomial / cumulative sum", FM)], ["returned (signal, iflaw)"])
p("C11", "Amplitude modulations equal their envelope formulas",
  "amgauss, amexpos, amrect and amtriang return exactly n samples of, respectively, a Gaussian, a one- or two-sided exponential, a rectangle and a triangle centred at t0 with the given spread, all between 0 and 1 and largest at the centre (t0 counts from one for amgauss: sample t0-1 is its peak). Default centre and spread are n/2 (rounded) and 2*sqrt(n).",
  ["inputs"], "all n >= 1, real centres, positive spreads, both exponential kinds",
  "tests check convexity/peak position for one or two parameter sets", [AM], [("envelope formulas", AM)], ["returned array"])
p("C12", "Invalid generator and analysis arguments are rejected, valid ones accepted",
  "An exception is raised (TypeError/ValueError/AssertionError) for: a point count of zero or less (fmconst, fmlin, the amplitude modulations, ASK and BPSK keying, klauder, noisecg); a normalised frequency outside its documented range (fmconst, fmlin, fmodany, ASK, BPSK and QPSK keying, klauder, mexhat, doppler); a time centre outside the signal (fmodany, doppler); a distance that is not positive (doppler); a zero rate (gdpower); an even-length window (smoothed pseudo Wigner-Ville, Gabor, reassigned functions); irregularly spaced instants (reassigned spectrogram); a negative distribution (Shannon entropy); a matrix where a vector is expected. Arguments inside the documented ranges, the bounds included, never raise.",
  ["inputs", "configurations"], "all argument values on both sides of every documented bound",
  "tests never exercise a rejection of a generator", [FM, AM, ANA, MISC, COH, REA, POST, FREQ], [("argument guards", "heads of the generator functions")], ["exception or value"])
p("C13", "Atom signals are the superposition of the listed Gaussian atoms",
  "atoms(n, coordinates) returns n samples equal to the sum over the rows (t0, f0, T, A) of A times a unit Gaussian of spread T centred at t0 (counted from one) times a unit-modulus tone of frequency f0 with phase zero there, t0 being limited to 1..n and rounded to a sample and f0 limited to 0..0.5. It is linear in the amplitudes, additive in the rows, and accepts a single atom as a vector.",
  ["inputs"], "all n and all coordinate matrices with positive spreads",
  "no direct test", [MISC, AM, FM], [("accumulation loop", MISC + ": atoms")], ["returned array"])
p("C14", "Shift-keying signals are n samples keyed every n_comp samples",
  "anaask, anabpsk, anafsk and anaqpsk return a signal and a keying law of exactly n_points samples each, the law constant on consecutive blocks of n_comp samples (default half of n_points for anaask, a fifth for the others), each block's value drawn anew, with values in the documented alphabet (amplitudes in [0,1); -1/+1; Nbf frequencies; multiples of pi/2). The signal is the law applied to the carrier: amplitude times a unit tone at f0 (default 1/4), the running phase integral, or the carrier phase plus the phase law.",
  ["inputs"], "all n_points (at least 3 for the default block length), block lengths (dividing n_points or not), carrier frequencies, alphabets, random draws",
  "tests use block lengths that divide n_points and one draw", [ANA, FM], [("repeat/truncate of random symbols", ANA)], ["returned (signal, law)"])
p("C15", "Analytic pulse, step and noise are analytic signals of the right real part",
  "anapulse and anastep return n complex samples whose real part is exactly the unit impulse at ti, respectively the step that is one strictly after ti, and whose spectrum vanishes at negative frequencies. anasing returns an n-sample analytic signal.",
  ["inputs"], "all n >= 1 and time positions", "one size and position each is tested", [ANA], [("analytic projection", ANA)], ["returned array"])
p("C16", "Wavelets and noisy Doppler signals have n samples and unit energy",
  "altes, klauder, gdpower and dopnoise return exactly n samples with total energy one whenever the underlying waveform is not identically zero; gdpower's signal is also zero mean and its frequency axis and group-delay law have equal length. mexhat(nu) is the sampled Mexican hat, symmetric with odd length.",
  ["inputs"], "all n (gdpower n >= 3, klauder n >= 2), bandwidths, attenuation (klauder 4*pi*attenuation*f0 > 1), degrees, rates, random draws", "fixed vectors for n=8 and one noise energy check", [MISC, NOI], [("final normalisation", MISC + ", " + NOI)], ["returned arrays"])
p("C17", "Noise generators return exactly n samples of analytic unit-variance noise",
  "noisecg and noisecu return a one-dimensional complex array of exactly n samples for every n >= 1, whatever is drawn. For n a power of two of at least four, the real part has mean square deviation exactly 1/2 about its mean and the imaginary part is its Hilbert transform, so the noise is analytic: its spectrum vanishes at negative frequencies.",
  ["inputs"], "all n >= 1 and random draws", "n=128 only", [NOI, UT], [("power-of-two draw and tail selection", NOI)], ["returned array"])
p("C18", "sigmerge mixes two signals at the requested energy ratio",
  "sigmerge(x1, x2, ratio) returns x1 plus a non-negative multiple of x2 such that the mean power of x1 over that of the added part is 10^(ratio/10), for all signals of equal length with x2 not identically zero.",
  ["inputs"], "all signal pairs and ratios", "one pair is tested", [GUT], [("power ratio", GUT + ": sigmerge")], ["returned array"])
p("C19", "Integer helpers return exact divisors, powers of two, odds and residues",
  "divider(N) returns two positive integers with product N and the smaller as large as possible; nextpow2(n) is the least exponent e with 2**e >= n; nearest_odd returns an odd integer within distance one, leaving odd integers unchanged; modulo(x, N) is congruent to x modulo N and lies in 1..N for integers.",
  ["inputs"], "all positive integers (arbitrarily large), all reals/arrays where accepted", "tests go up to 100", [UT], [("search loop and rounding", UT)], ["returned values"])
p("C20", "Inverse Zak transform and Gabor analysis return the defined transforms",
  "izak of an n-by-m matrix is the length n*m vector whose element im+l*m is sqrt(n) times the l-th inverse DFT value of column im. gabor returns coefficients of shape (M, n_coeff), the squared modulus of which is the first output, the coefficients being the Fourier coefficients of the signal seen through the shifted dual window, and a real dual window of the signal's length, biorthogonal to the given one: wherever the window has a dual, the coefficients times the shifted and modulated window add up to the signal; even-length windows are rejected.",
  ["inputs", "configurations"], "all matrices; all signal lengths and admissible (n_coeff, q)", "no test calls either", [UT, LIN], [("interleaving", UT + ": izak"), ("Gabor pipeline", LIN + ": gabor")], ["returned arrays"])
p("C21", "integrate_2d is the trapezoidal double integral; derive_window differentiates",
  "integrate_2d(mat, x, y) equals the two-dimensional trapezoidal rule for a uniformly spaced x axis and any y axis (defaults 0,1,2,...), and is linear in the matrix. derive_window returns an array of the window's length which is the central difference of the window in the interior, with the removed ramp and end steps restored at the boundary (zero for a single point).",
  ["inputs"], "all matrices with at least two rows and columns, all axes, all windows of length >= 1", "one Hann window's midpoint is checked", [PUT], [("trapezoid weights", PUT + ": integrate_2d"), ("differences", PUT + ": derive_window")], ["returned values"])
p("C22", "Time and frequency localisation are the energy-weighted moments",
  "loctime returns the energy-weighted mean of the sample index and 2*sqrt(pi) times its energy-weighted standard deviation; locfreq returns the same moments of the DFT bin frequency (bins wrapped to [-1/2, 1/2)) weighted by the power spectrum. Both are defined for every signal with non-zero energy, of odd or even length, and are invariant under scaling of the signal.",
  ["inputs"], "all signals of any length with non-zero energy", "one 128/160-point signal", [TIME, FREQ], [("moments", TIME + ": loctime; " + FREQ + ": locfreq")], ["returned pair"])
p("C23", "Instantaneous frequency is the wrapped two-sample phase advance",
  "inst_freq(x, t) returns t (default 2..N-1) and, for each t, half the phase advance from sample t-2 to sample t in turns, as a value in [0, 1/2] (0 and 1/2 identified). It recovers the frequency of every tone strictly between 0 and 1/2 exactly, whatever its amplitude and phase.",
  ["inputs"], "all signals, all time instants 2..N-1", "one chirp's extreme values to 2 decimals", [FREQ], [("angle of the lag-2 product", FREQ + ": inst_freq")], ["returned (fnorm, t)"])
p("C24", "Group delay is the real Fourier ratio, gated to the signal's extent",
  "group_delay(x, f) at each frequency is the real part of the ratio of the spectra of (n+1)*x[n] and x[n] at that frequency when that lies between 1 and N+3, and 0 otherwise, wherever the spectrum of x does not vanish; without frequencies it is evaluated at all DFT bins in centred order.",
  ["inputs"], "all signals and frequency vectors where the spectrum does not vanish", "one linear chirp, linearity to 0 decimals", [FREQ], [("Fourier ratio", FREQ + ": group_delay")], ["returned array"])
p("C25", "Narrow-band ambiguity function equals its lag-Doppler definition",
  "narrow_band(x) returns the matrix whose entry (doppler xi, lag tau) is the sum over samples n with n+tau and n-tau inside the signal of x[n+tau]*conj(x[n-tau])*exp(-2*pi*i*xi*n), with the Doppler axis centred and given by the returned xi = j/F and the lags as returned. At zero Doppler and lag it equals the signal energy.",
  ["inputs", "configurations"], "all signals, lag vectors within half the signal, Doppler bins F >= N", "one 128-point signal; only the maximum and volume", [AMB], [("lag loop and spectrum centring", AMB + ": narrow_band")], ["returned (naf, lag, xi)"])
p("C26", "Wide-band ambiguity function has the documented shape, axes and normalisation",
  "wide_band(x, fmin, fmax, N) returns a matrix of shape (N, len(x)), lags centred on zero and the logarithms of scales running symmetrically from fmin/fmax to fmax/fmin. Up to one common factor it is the inverse transform, over the scale, of the product of the Mellin transform of the geometrically sampled analytic spectrum with the conjugate Mellin transform of its shifted copy. The factor makes the value at row ceil(N/2)-1 and column round(n/2)-1 the energy of the analytic spectrum over the bins round(fmin*(n-2)) to round(fmax*(n-2)), divided by N.",
  ["inputs", "configurations"], "all signals, bands and voice counts", "one Altes signal, position of the maximum to one decimal", [AMB], [("normalisation", AMB + ": wide_band")], ["returned (waf, tau, theta)"])
p("C27", "Renyi information equals its formula for the normalised distribution",
  "renyi_information(tfr, t, f, alpha) normalises the distribution to unit integral over the axes (equally spaced time instants, frequencies sorted) and returns log2 of the integral of its alpha-th power divided by 1-alpha (the Shannon entropy for alpha = 1, for which negative distributions are rejected). It is invariant under scaling of the distribution.",
  ["inputs"], "all distributions with non-zero integral, axes and orders", "one difference of two values to 1 decimal", [POST, PUT], [("normalise and integrate", POST + ": renyi_information")], ["returned value"])
p("C28", "Ideal representation marks exactly the cells of the frequency laws",
  "ideal_tfr(iflaws, t, F) returns an (F, len(t)) matrix in which, for each time instant and each law, the cell in that column at row round(2*(F-1)*frequency) is one and all other cells are zero. The frequency axis is k/(2F).",
  ["inputs"], "all laws with values in [0, 1/2], time instants, bin counts", "only the number of Hough peaks is looked at", [POST], [("marking loop", POST + ": ideal_tfr")], ["returned (tfr, t, f)"])
p("C29", "Hough and Friedman post-processing conserve and bin mass correctly",
  "hough_transform adds each pixel above 5% of the maximum once, for every angle for which its centred signed distance is in [0, rhomax], at the nearest distance bin of that angle, and returns axes whose lengths match the accumulator. friedman_density is the per-column histogram of reassigned frequencies of the cells above threshold, normalised to total one.",
  ["inputs", "configurations"], "all images, accumulator sizes, reassignment matrices", "no test calls either", [POST], [("vote loop", POST + ": hough_transform"), ("histogram loop", POST + ": friedman_density")], ["returned arrays"])
p("C30", "Reassignment moves spectrogram mass without creating or losing any",
  "The reassigned spectrogram and reassigned pseudo Wigner-Ville return the plain distribution, its reassigned version and the reassignment field, all of shape (F, T); the plain one equals its own definition (as C02 and C04) and the total of the reassigned distribution equals the total of the plain one (per column for the pseudo Wigner-Ville). Cells at or below a millionth of the mean signal power stay where they are; every other cell moves to the nearest bin of its local centre of gravity.",
  ["inputs", "configurations"], "all signals, windows, bin counts, time instants", "no test calls the reassigned methods", [REA, PUT], [("mass transfer loop", REA + ": spectrogram, pseudo_wigner_ville")], ["returned (tfr, rtfr, field)"])
p("C31", "Affine distributions are normalised to the energy of the analysed band",
  "The scalogram, Bertrand, D-Flandrin and Unterberger distributions return a real matrix of shape (n_voices, T) with the time instants and the geometrically spaced frequencies fmin*(fmax/fmin)**(k/(n_voices-1)). Its trapezoidal integral over those axes equals the energy of the analytic spectrum of the whole signal over the bins round(fmin*(N-2)) to round(fmax*(N-2)), divided by the number of voices, wherever that energy is not zero, whatever the instants. The scalogram is proportional to the squared modulus of the wavelet transform it returns.",
  ["inputs", "configurations"], "all signals, bands, voice counts, wavelet half lengths", "no test calls any affine distribution", [AFF, PUT], [("final normalisation", AFF)], ["returned (tfr, t, f)"])
p("C32", "Doppler signals follow the moving-source geometry",
  "doppler returns n-sample unit-modulus frequency modulation, amplitude modulation 1/sqrt(distance) and frequency law of a source passing at the given distance and speed with closest approach at t0: the phase is 2*pi*f0*(t - dist(t)/c) and the frequency law is its derivative in cycles per sample. dopnoise's law is the same law.",
  ["inputs"], "all point counts, sampling rates, speeds, distances, centres", "only monotonicity of one law", [MISC, NOI], [("geometry", MISC + ": doppler")], ["returned (fm, am, iflaw)"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in R:
        f.write(json.dumps(r) + "\n")
print(len(R))
