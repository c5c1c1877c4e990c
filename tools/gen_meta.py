#!/usr/bin/env python3
"""The table of properties -> properties.jsonl and MANIFEST.json (run by hand after editing the table)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REP = "proadv/filtration/replacement/replacements.py"
DET = "proadv/filtration/detection/"
ST = "proadv/statistics/"
SG = "proadv/statistics/signal/"
IN, HI, CO = "inputs", "histories", "configurations"

# id, title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)], technique, note
T = [
 ("R01", "Replacement changes only the flagged samples",
  "Every spike-replacement method returns a new, finite record of the same length in which each unflagged sample is the original one (for the methods that round their result: the original rounded to the requested number of decimals). The caller's record and its list of flagged indices are never modified, the result shares no memory with them, and repeating the call gives the same record. This holds for any set of flagged indices: none, isolated ones, runs of any length, the first and last samples, nearly all.",
  [IN, CO], "all velocity records, all sorted sets of flagged indices in the method's domain, all eleven replacement methods and their parameters, all array memory layouts",
  "No test in the suite imports the replacement package at all; the set of records times index sets times parameters is unbounded.",
  [REP], [("copy of the record before assignment at the flagged indices, rounding by np.around", REP + ": all functions")],
  "property-based testing: locality and aliasing invariants over generated records and spike sets"),
 ("R02", "Last-valid replacement holds the previous good sample",
  "Replacement by the last valid datum gives every flagged sample the value of the nearest preceding unflagged sample, exactly, however long the run of flagged samples. Unflagged samples are untouched.",
  [IN], "all records (floats, integers, lists, tuples) and all ascending sets of flagged indices that leave the first sample unflagged",
  "No existing test covers it; run lengths and positions are unbounded.",
  [REP], [("in-order propagation of velocities[i-1]", REP + ": last_valid_data")],
  "property-based testing against an independent hold model"),
 ("R03", "Mean and median fill use the whole record's mean and median",
  "Mean-value replacement sets every flagged sample to the arithmetic mean of the complete input record, and median-value replacement sets it to the complete record's median (average of the two middle values for an even length). All flagged samples get the same value and no other sample changes.",
  [IN], "all records and all sets of flagged indices including none and all",
  "No existing test covers it.", [REP], [("np.mean / median of the record before assignment", REP + ": mean_value, median_value")],
  "property-based testing against exactly summed mean and sorted median"),
 ("R04", "Smoother-based replacement takes the smoothed value at the same index",
  "Replacement by simple, exponential or weighted moving average, by Kalman filter and by singular-spectrum smoothing puts at each flagged index i exactly the value that the corresponding smoother of the complete record has at index i, with the same parameters and defaults. No other sample changes.",
  [IN, CO], "all records, flagged indices for which the smoothed series has a value, and smoother parameters",
  "No existing test covers the replacements; index alignment between a shorter or list-valued smoothed series and the record shows only at particular indices.",
  [REP, ST + "series.py"], [("smoothed series indexed with the flagged indices", REP + ": simple_moving_average .. kalman_filter")],
  "property-based differential testing against independent smoother models"),
 ("R05", "Linear interpolation bridges flagged runs between their good neighbours",
  "Each interior run of consecutive flagged samples is replaced by equally spaced values on the straight line between the unflagged sample before it and the one after it; a run at the start takes the first unflagged value, and a run that reaches the end takes the mean of the record (NaN ignored). The whole result is rounded to the requested decimals (4 by default) and values stored in flagged samples, NaN included, do not influence interior or leading replacements.",
  [IN, CO], "all records with and without NaN in flagged samples, all sets of flagged indices, all rounding settings",
  "No existing test covers it; the run structure (adjacent runs, runs of any length, runs at both ends) is combinatorial.",
  [REP], [("grouping of consecutive indices and np.linspace-style filling", REP + ": linear_interpolation")],
  "property-based testing against a reference interpolator plus a leak (metamorphic) check"),
 ("R06", "12-point cubic replacement fits the 24 surrounding good samples",
  "Away from the ends of the record the replacement of a flagged sample is the cubic (spline) interpolation at its position through the 12 preceding samples (earlier flagged ones as already replaced) and the 12 next unflagged ones; near the ends (within 30 samples) or when fewer than 12 good samples follow, it is the average of the preceding sample and the next unflagged one. A record that is a cubic polynomial of time is therefore restored exactly at isolated interior spikes, the result is rounded as requested, and negative or out-of-range indices and 2-D input are refused with ValueError.",
  [IN, CO], "all records, all ascending sets of flagged indices leaving one sample unflagged, all rounding settings, all malformed index sets",
  "No existing test covers it; sequential replacement makes the outcome depend on the whole pattern of neighbouring spikes.",
  [REP], [("collection of good neighbours on both sides and cubic interpolation", REP + ": cubic_12points_polynomial")],
  "property-based testing against a reference model and exact-reproduction of cubic records"),
 ("R07", "Polynomial replacement extrapolates the fit of the preceding window",
  "A flagged sample after the tenth is replaced by the least-squares polynomial of the given degree through the preceding window of samples (the most recent `window` ones, or all earlier ones if there are fewer, with earlier flagged samples as already replaced), evaluated at its position; flagged samples up to index 10 are linearly interpolated and index 0 takes the record's mean. The result is rounded to the requested decimals, so a record that is a polynomial of that degree is restored.",
  [IN, CO], "all records, sets of flagged indices, windows, degrees 1 to 3 and rounding settings",
  "No existing test covers it; each replacement feeds the next one, so errors depend on the history of replacements.",
  [REP], [("PolynomialFeatures and LinearRegression on the trailing window", REP + ": polynomial_replacement, _create_model")],
  "property-based testing: step-by-step model of the replacement history"),

 ("D01", "Acceleration thresholding flags exactly the excessive jumps",
  "Acceleration thresholding with tag 1 returns, in increasing order, exactly the samples i >= 1 whose increase from the previous sample times the sampling frequency is greater than k_gravity times gravity and whose value exceeds the record's mean by more than k_sigma standard deviations; with tag 2 exactly the mirrored condition (decrease, below the mean). Values meeting a threshold exactly are not flagged, and any tag other than 1 or 2 raises ValueError.",
  [IN, CO], "all records (arrays, lists, integers), frequencies, thresholds and tags",
  "No existing test covers any detector; behaviour at and around the two thresholds needs generated records.",
  [DET + "acceleration.py"], [("two masks combined", DET + "acceleration.py: acceleration_thresholding")],
  "property-based testing against a reference detector with exact-threshold integer records"),
 ("D02", "Phase-space thresholding flags exactly the points outside an ellipse",
  "The phase-space method returns, in increasing order, exactly the samples lying outside at least one of the three universal-threshold ellipses in the planes (u, u'), (u', u'') and the rotated plane (u, u''), with u' and u'' the 4-decimal central differences (zero at the ends) and semi-axes sqrt(2 ln n) times the standard deviations. The reported derivatives, standard deviations, threshold, rotation angle and semi-axes satisfy the defining equations.",
  [IN], "all velocity-fluctuation records",
  "No existing test covers it; which plane decides and the rotation depend on the record.",
  [DET + "phasespace.py", DET + "poincare.py"], [("derivatives, ellipse parameters and rho > 1 per plane", DET + "phasespace.py: calculate_derivatives, calculate_parameters, phasespace_thresholding")],
  "property-based differential testing against an independent geometric model"),
 ("D03", "Phase-space premodification replaces only what exceeds the threshold",
  "Premodification replaces every sample whose magnitude exceeds c2 times the median absolute deviation times sqrt(2 ln n) by the value before it (already replaced, within a run), leaves every other sample as it is, and does not modify the caller's record. The second result is exactly the set of indices whose magnitude is at most c1 times the median absolute deviation.",
  [IN, CO], "all records whose first sample is within the threshold, all factors c1 and c2",
  "No existing test covers it; one-sided excursions and runs need generated records.",
  [DET + "phasespace.py"], [("median-absolute-deviation threshold", DET + "phasespace.py: phasespace_thresholding_premodification")],
  "property-based testing against a reference model, including aliasing of the input"),
 ("D04", "Velocity correlation flags exactly the points outside an ellipse",
  "Velocity correlation returns, in increasing order, exactly the samples lying outside at least one of the three universal-threshold ellipses in the planes of the mean-removed component pairs (u,v), (u,w), (v,w); a degenerate ellipse flags nothing. Adding a constant to a component or reordering the samples in time does not change which samples are flagged, and the ellipse semi-axes and normalised distances satisfy the rotated-ellipse equations.",
  [IN], "all triples of non-constant component records, correlated or not",
  "No existing test covers it; strong correlation and degenerate ellipses need generated triples.",
  [DET + "correlation.py", DET + "poincare.py"], [("ellipse coefficients and rho per plane", DET + "correlation.py: velocity_correlation; poincare.py: calculate_ab, calculate_rho")],
  "property-based differential and metamorphic testing (shift, permutation)"),
 ("D05", "3-D phase-space thresholding flags the points outside the ellipsoid",
  "The spherical (3-D) phase-space method returns, in increasing order, the samples lying outside the universal-threshold ellipsoid of the mean-removed record and its two successive gradients after the rotation by the method's angle, in every octant, and none of those inside (up to the method's 4-decimal rounding). The result does not depend on the iteration counter or running mean passed for reporting.",
  [IN, CO], "all records whose ellipsoid is well above the rounding, any iteration counter and mean",
  "No existing test covers it; octants and directions are reached only by generated records.",
  [DET + "spherical.py"], [("spherical coordinates of the ellipsoid and the point", DET + "spherical.py: _spike_indices, spherical_phasespace_thresholding")],
  "property-based differential testing against a quadratic-form model"),
 ("D06", "Kernel-density despiking flags the points outside the cutoff ellipse",
  "The three-dimensional kernel method returns, in increasing order, exactly the samples outside the cutoff ellipse of at least one of the projections (u,u'), (u,u''), (u',u''): the cutoffs are the first grid positions on each side of the density peak where the Gaussian kernel density (Scott bandwidth) along the peak's row or column is low and flat enough for thresholds of sqrt(2 ln n) sigma/sqrt(n). The single-projection routine obeys the same rule and returns, with the indices, that density on the grid (first index along the first rotated coordinate).",
  [IN, CO], "all records and grid sizes with a unique density peak",
  "No existing test covers it; the density, peak and cutoffs depend on the whole record.",
  [DET + "trivariatekernel.py"], [("rotation, kernel density on a grid, cutoffs, ellipse", DET + "trivariatekernel.py: kernel, three_dimensional_kernel")],
  "property-based differential testing against a from-scratch kernel density model"),
 ("D07", "Building blocks of the bivariate kernel method obey their definitions",
  "The building blocks the bivariate-kernel example composes obey their definitions for every input: the cutoff search returns the velocities at the first positions below and above the peak (never position 0) whose density ratio to the peak and scaled slope are both at most their thresholds, else position 1 and the last position; the derivative takes at each interior sample the one-sided difference of smaller magnitude (backward on ties) and zero at the ends; the rotation angle is the arctangent of the regression of the second variable on the first.",
  [IN, CO], "all density profiles, peaks and thresholds; all records; all pairs of variables",
  "No existing test covers them.",
  [DET + "bivariatekernel.py", "proadv/kernel/bivariate.py", DET + "trivariatekernel.py"],
  [("outward scan from the peak, smaller one-sided difference, arctan2 of sums", DET + "bivariatekernel.py: _cutoff, _derivative; proadv/kernel/bivariate.py: _rotation")],
  "property-based testing against reference definitions"),
 ("D08", "Bivariate kernel density is the Gaussian-smoothed density of the data",
  "The bivariate kernel density is non-negative, integrates to one over the data range, and at every grid point equals (up to two cells of binning) the average of Gaussian kernels with the given bandwidths (as fractions of each range) centred at the samples and reflected at the range's edges, on meshes spanning exactly the data range; input data are unchanged. Reordering samples changes nothing, exchanging the two components and bandwidths transposes the density, and the bandwidth root search returns the point of [0, 0.1] where a monotone function is closest to zero.",
  [IN, CO], "all two-component samples with non-zero range, bandwidths of at least 2 cells, even grids; all monotone functions and sample sizes for the root search",
  "No existing test covers it.", ["proadv/kernel/bivariate.py"],
  [("histogram, discrete cosine transform, Gaussian damping, inverse transform", "proadv/kernel/bivariate.py: bivariate_kernel, root")],
  "property-based testing against a reflected-kernel oracle, with symmetry (metamorphic) checks"),
 ("D09", "Pollution rate is the percentage of samples far from the filtered record",
  "The pollution rate is 100 times the fraction of samples whose distance from the filtered record, upwards or downwards, is strictly greater than k standard deviations of the original record. It lies between 0 and 100 for every pair of equally long records.",
  [IN, CO], "all records, filtered records of the same length, and k >= 0",
  "No existing test covers it.", [DET + "pollution.py"], [("two-sided comparison with k sigma", DET + "pollution.py: pollution_rate")],
  "property-based testing against an exact count"),
 ("D10", "Every detector returns valid, sorted indices and treats both signs alike",
  "Every detector returns a one-dimensional array of strictly increasing integer indices of the record it was given (an empty one if nothing is detected), does not modify the record, and accepts any array memory layout. For the symmetric methods, the mirror image of a zero-mean record gives the same indices (acceleration: with the other tag).",
  [IN, CO], "all records and detectors",
  "No existing test covers any detector.", [DET + "acceleration.py", DET + "phasespace.py", DET + "correlation.py", DET + "spherical.py", DET + "trivariatekernel.py"],
  [("index extraction by np.where / np.unique", DET + "*.py")],
  "property-based testing: output invariants and mirror-image metamorphic relation"),

 ("S01", "Minimum and maximum are the true extremes",
  "The minimum and maximum of any non-empty collection of numbers (list, tuple, array of any dimension, integers or floats, infinities included) are its smallest and largest elements, exactly. Data holding strings raise TypeError; data holding NaN and empty data raise ValueError.",
  [IN], "all numeric collections and all malformed ones",
  "The tests sample a handful of short lists; positions of the extreme, sign patterns, containers and positions of invalid items are unbounded.",
  [ST + "descriptive.py"], [("validation, then a scan", ST + "descriptive.py: min, max")],
  "property-based testing against sorting, with generated malformed inputs"),
 ("S02", "Mean averages every numeric item, numeric strings included",
  "The mean of numeric data of any dimension is the arithmetic mean of all its elements, to floating-point accuracy; a single number is its own mean. In a mixed list, strings that denote numbers count as these numbers and other strings are ignored; when nothing numeric remains, the documented text 'Invalid input.' is returned.",
  [IN], "all numeric arrays and containers, all mixed lists, scalars, empty input",
  "The tests sample a few lists; mixtures and positions of strings are unbounded.",
  [ST + "descriptive.py"], [("conversion of strings, then sum over count", ST + "descriptive.py: mean")],
  "property-based testing against exact summation"),
 ("S03", "Median and mode are the true order statistic and most frequent value",
  "The median of a 1-D record is the middle value in sorted order, or the average of the two middle values for an even length; the mode is the most frequent value (the smallest on a tie) together with its exact frequency. Median refuses strings with TypeError and empty or non-1-D input with ValueError, and neither modifies the input.",
  [IN], "all records, with ties, of every length and order",
  "The tests sample a few short arrays.", [ST + "descriptive.py"], [("sorting; np.unique counts", ST + "descriptive.py: median, mode")],
  "property-based testing against sorting and counting"),
 ("S04", "Variance and standard deviation are the population spread",
  "Variance is the mean squared deviation from the mean (divisor n) and the standard deviation is its square root, both non-negative and accurate even for records far from zero. Shifting or reordering the record changes neither, scaling by c scales the standard deviation by |c|, and strings (TypeError), empty or non-1-D input (ValueError) are refused.",
  [IN], "all records including offsets up to a million standard deviations",
  "The tests sample a few arrays; cancellation shows only for large offsets.", [ST + "spread.py"], [("two-pass deviations", ST + "spread.py: variance, std")],
  "property-based testing against two-pass exact summation plus metamorphic relations"),
 ("S05", "Skewness and kurtosis are the standardised third and fourth moments",
  "Skewness and kurtosis of a non-constant record are its third and fourth standardised central moments (population form; kurtosis not reduced by 3), for any array shape for kurtosis. Under x -> a x + b skewness is multiplied by the sign of a and kurtosis is unchanged, kurtosis is at least 1 + skewness squared, and kurtosis of data holding NaN is NaN.",
  [IN], "all non-constant records and shapes", "The tests sample a few arrays.", [ST + "moment.py"],
  [("central moments over powers of the deviation", ST + "moment.py: skewness, kurtosis")],
  "property-based testing against exact moments plus affine invariance"),
 ("S06", "Moving average is the mean of the trailing window",
  "The simple moving average has one value per sample: the mean of the window of given size ending at that sample, and of all samples so far for the first ones. An empty record gives an empty result; windows that are zero, negative or longer than the record, and 2-D input, raise ValueError; the input is not modified.",
  [IN, CO], "all records and window sizes 1..n, and all invalid windows", "The tests sample a few windows.", [ST + "series.py"],
  [("windowed sums", ST + "series.py: moving_average")], "property-based testing against direct window means"),
 ("S07", "Exponential moving average follows its recursion from the first sample",
  "The exponential moving average starts at the first sample and then equals alpha times the new sample plus (1 - alpha) times the previous value, for every step of a record of any length. A smoothing factor outside (0, 1] raises ValueError, and the input is not modified.",
  [IN, CO], "all records and factors", "The tests sample a few factors on short lists.", [ST + "series.py"],
  [("first-order recursion", ST + "series.py: exponential_moving_average")], "property-based testing against the recursion"),
 ("S08", "Weighted moving average weights the window linearly",
  "The weighted moving average of period p has n - p values; value j is the mean of samples j..j+p-1 weighted 1..p, the newest heaviest. A period that is zero, negative or longer than the record raises ValueError, and the input is not modified.",
  [IN, CO], "all records and periods 1..n, and all invalid periods", "The tests sample a few periods.", [ST + "series.py"],
  [("dot product with linear weights", ST + "series.py: weighted_moving_average")], "property-based testing against direct weighted means"),
 ("S09", "Singular-spectrum smoothing keeps exactly the slow components",
  "Singular-spectrum smoothing with window ceil(fs/f) returns a record of the same length that is the diagonal average of the trajectory matrix projected on exactly those principal components whose mobility does not exceed that of a sine at the cutoff frequency. This holds for windows up to the record length, including those longer than half of it.",
  [IN, CO], "all records, sampling and cutoff frequencies with ceil(fs/f) between 3 and n", "No existing test reaches it beyond one call or a shape.",
  [ST + "series.py"], [("eigenvectors of the lag covariance, mobility, diagonal averaging", ST + "series.py: ssa, _mobility, _diagonal_average")],
  "property-based differential testing against an independent decomposition"),
 ("S10", "Kalman filter follows the scalar random-walk recursion",
  "The Kalman filter returns one estimate per sample, equal to the scalar random-walk Kalman recursion started at the given state and covariance with the given process and measurement noise. Every estimate lies between the previous estimate and the sample.",
  [IN, CO], "all records, initial states, covariances and noise levels with positive measurement noise", "The tests sample one or two configurations.",
  [ST + "series.py"], [("predict/update loop", ST + "series.py: kalman_filter")], "property-based testing against the scalar recursion"),
 ("S11", "Normal distribution functions match the standard normal law",
  "The density, distribution function, survival function and their logarithms equal those of the normal law (the density and log-density for any mean and positive deviation) to near machine precision over the working range, keep the input's shape for scalars, lists, integer and multi-dimensional arrays, and do not modify it. The distribution function is monotone, in [0, 1], complements the survival function, reaches 0 and 1 at the infinities, and keeps relative accuracy in the lower tail; empty input raises ValueError and NaN raises TypeError.",
  [IN, CO], "all finite points in the working range, infinities, all containers and shapes, all means and deviations", "The tests sample a few points.",
  [ST + "distributions/normal.py"], [("piecewise erf/erfc evaluation", ST + "distributions/normal.py: cdf, pdf, log_pdf, log_cdf, sf, log_sf")],
  "property-based testing against math.erfc/exp references"),
 ("S12", "Skewness and kurtosis tests give D'Agostino and Anscombe-Glynn scores",
  "The skewness test statistic is D'Agostino's normal transform of the sample skewness and the kurtosis test statistic is the Anscombe-Glynn transform of the sample kurtosis, for every non-degenerate sample of at least 8 (skewness) or 5 (kurtosis) values. The p-value is the corresponding normal tail of the statistic for 'two-sided', 'less' and 'greater'; smaller samples and other alternatives raise ValueError.",
  [IN, CO], "all samples, containers and alternatives", "The tests sample one or two arrays; strongly platykurtic or left-skewed samples take other branches.",
  [ST + "distributions/normal.py"], [("transforms and tail probabilities", ST + "distributions/normal.py: skewtest, kurtotest")],
  "property-based testing against the published transforms"),
 ("S13", "Root finding returns a bracketed root within tolerance",
  "For a continuous function with a sign change on [a, b], the root finder returns a point of the bracket within xtol + rtol*|root| of a sign change (an endpoint if it is a root), evaluating the function only inside the bracket. The full output reports the same root with the true number of function calls and converged status; a reversed interval or one without a sign change raises ValueError, and running out of iterations raises ValueError (or is reported as not converged in the full output) instead of passing for a root.",
  [IN, CO], "all continuous functions, brackets, tolerances and iteration limits", "The tests sample two or three functions.",
  [ST + "optimize/optimize.py"], [("Brent's method", ST + "optimize/optimize.py: brentq")],
  "property-based testing with recording function probes and a sign-change oracle"),
 ("S14", "Bounded minimisation returns the best point it evaluated",
  "Bounded minimisation of a unimodal function returns a point of the interval within the tolerance of its minimiser, evaluates the function only inside the interval and at most the allowed number of times, and never reports a point worse than one it has evaluated. The full output reports that point's function value, the error flag for an exhausted budget and the true number of evaluations; extra parameters are passed through, and infinite or reversed bounds raise ValueError.",
  [IN, CO], "all functions, intervals, tolerances, budgets and extra parameters", "The tests sample two or three functions.",
  [ST + "optimize/optimize.py"], [("golden section with parabolic interpolation", ST + "optimize/optimize.py: fminbound, _optimize_within_bounds")],
  "property-based testing with recording function probes"),
 ("S15", "Turbulent energy and Reynolds stresses are the fluctuation covariances",
  "Turbulent kinetic energy is half the sum of the three components' population variances, and the Reynolds stresses are the population covariances of the component pairs in the order uu, vv, ww, uv, uw, vw. Constant offsets of the components or a common reordering of the samples change neither, and scaling all components by c scales the energy by c squared.",
  [IN], "all triples of equally long component records", "No existing test covers it.", [SG + "fluid.py"],
  [("fluctuations about the mean", SG + "fluid.py: kinetic_turbulent_energy, reynolds_stresses")],
  "property-based testing against exact covariances plus metamorphic relations"),
 ("S16", "Synthetic pollution perturbs exactly the requested share of samples",
  "Synthetic noise changes exactly int(n*percent/100) samples of a record, at distinct uniformly random positions, by alternating-sign spikes whose size relative to the record's mean is the percentage plus the magnitude of a small random part; all other samples and the caller's record are unchanged. The outcome is reproducible from numpy's seed and zero percent changes nothing.",
  [IN, CO], "all records with a non-negligible mean, percentages 0..100, random states", "No existing test covers it.", [SG + "synthetic.py"],
  [("random distinct indices and scaled perturbations", SG + "synthetic.py: synthetic_noise, _random_index")],
  "property-based testing with seeded randomness and statistical placement bounds"),
 ("S17", "Power spectra are Welch estimates with the requested block and overlap",
  "The power spectrum is the Welch estimate: average over blocks of the given length, overlapping by the given percentage, of the squared Fourier magnitudes of the mean-removed, Hann-windowed block, scaled to a density, one- or two-sided as requested. Frequencies run from zero to half the sampling frequency (one-sided) in steps of frequency over block.",
  [IN, CO], "all records at least one block long, block lengths, overlaps below 96 %, sampling frequencies, sidedness", "No existing test covers it.", [SG + "spectrum.py"],
  [("scipy welch call", SG + "spectrum.py: power_spectra")], "property-based differential testing against a from-scratch Welch estimate"),
 ("S18", "Butterworth designs have the Butterworth frequency response",
  "Every Butterworth design (low-pass, high-pass, band-pass, band-stop; digital or analogue) has exactly the Butterworth response of its order: -3 dB at every critical frequency, the maximally flat magnitude in between, unit gain in the passband and zero in the stopband. All poles are stable.",
  [IN, CO], "orders up to 20 (12 for bands), critical frequencies, filter types, domains and sampling rates", "No existing test covers it.", [SG + "butter.py"],
  [("prototype, pre-warping, frequency transformation, bilinear transform", SG + "butter.py: butterworth")],
  "property-based testing against the closed-form response"),
 ("S19", "All output forms of a Butterworth design are the same filter",
  "Numerator/denominator, zero-pole-gain and second-order-section outputs of the same design describe the same transfer function with real coefficients, every section is stable, and giving a sampling rate only rescales the critical frequencies. Critical frequencies outside (0, Nyquist), reversed or equal band edges, a wrong number of edges, unknown types or outputs, a non-integral or negative order, and a sampling rate for an analogue filter are refused.",
  [IN, CO], "all designs and all malformed design requests", "No existing test covers it.", [SG + "butter.py"],
  [("conversions and validation", SG + "butter.py: butterworth, xyz_to_ptf, xyz_to_sop")],
  "property-based differential testing between output forms, with generated malformed requests"),
 ("S20", "Frequency transformations substitute exactly the mapped variable",
  "Each frequency transformation (low-pass to low-pass, high-pass, band-pass, band-stop, and bilinear) returns zeros, poles and gain whose transfer function at every complex point s equals the original transfer function at the mapped point, with the expected number of poles. Improper systems (more zeros than poles) and a bilinear transformation without a single sampling rate raise ValueError, and the prototype of order N has unit gain and N poles on the left half of the unit circle.",
  [IN, CO], "all proper conjugate-closed systems, transformation parameters and evaluation points", "No existing test covers it.", [SG + "butter.py"],
  [("mapped roots and gain corrections", SG + "butter.py: low_to_low, low_to_high, low_to_band, low_to_stop, bilinear, buttap")],
  "property-based testing of the substitution identity at random complex points"),
 ("S21", "Filter-form conversions preserve the transfer function",
  "Converting zeros, poles and gain to polynomials or to second-order sections preserves the transfer function, for any conjugate-closed root set, any order of the roots and any supported pairing, with real coefficients and ceil(max(zeros, poles)/2) sections; the polynomial form of an open root set is its complex expansion. For sections, roots without conjugates, a gain that is not real, unknown pairings, pairings not allowed for analogue filters and improper systems for the minimal pairing raise ValueError.",
  [IN, CO], "all conjugate-closed root sets, gains and pairings, and all malformed ones", "No existing test covers it.", [SG + "butter.py"],
  [("polynomial expansion and greedy pairing", SG + "butter.py: xyz_to_ptf, xyz_to_sop, _cxr, _closest_real_complex_i")],
  "property-based testing of the transfer function at random complex points"),

 ("X01", "Library calls are pure and independent of call history",
  "No library function modifies its arguments, returns memory shared with them, or changes global settings or numpy's random state (except the documented random noise generator). The result of a call depends only on its arguments: not on array memory layout, on which calls were made before (refused or failed ones included), on their order, on calls running in other threads, or on library calls made inside a target function. Returned arrays belong to the caller: later calls do not change them, and changing them does not affect later calls.",
  [HI, IN], "all sequences of calls to the public functions, in any order, with any arguments and array layouts",
  "Unit tests call each function once in a fresh state; caches, mutated defaults and aliasing show only over histories.",
  ["proadv/"], [("functions without module state, copies before assignment", "proadv/**: all public functions")],
  "stateful property-based testing: random call histories replayed in different orders in fresh processes"),
 ("X02", "Detect-and-replace pipelines despike without touching clean data",
  "Feeding a detector's indices to a replacement method, repeatedly and in any combination, works for every record: each step flags exactly the detector's spikes of the current record and replaces exactly these by the method's values. Samples never flagged keep their original value over the whole sequence of steps (up to the documented 4-decimal rounding), and other components are not affected.",
  [HI, IN, CO], "all records and all sequences of detector/replacement steps",
  "No test composes detection and replacement; errors accumulate over iterations.",
  [DET, REP], [("index arrays passed from detectors to replacements", DET + "*.py; " + REP)],
  "stateful (model-based) property-based testing: random despiking pipelines judged step by step"),
]

NOTE = ("Generated-input search with Hypothesis against an explicit oracle; holds on every generated case of the run (counts in the "
        "evidence file), no claim beyond them. Trusts numpy/scipy/Python arithmetic, the oracle in /verif/checks and /verif/lib/ref.py, "
        "and the stated tolerances; samples within floating-point rounding of a decision threshold are not judged.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
        for i, title, stmt, over, q, why, files, mech, tech in T:
            assert len(title) <= 80, title
            fh.write(json.dumps({"id": i, "title": title, "statement": stmt, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
                                 "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": None}}) + "\n")
    man = {"version": 1,
           "setup_cmd": "/opt/veriftools/pyvenv/bin/python -m pip install -q --no-index --find-links /opt/veriftools/wheels --target .deps hypothesis || true",
           "checks": [{"property": t[0], "quick_cmd": "python3 run.py %s" % t[0], "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % t[0],
                       "evidence_file": "evidence/%s.json" % t[0], "technique": t[8], "level": "exploration", "level_note": NOTE} for t in T],
           "not_applicable": [],
           "notes": "No hooks in /repo. Every check imports proadv from /repo's working tree at run time (nothing is cached). See DESIGN.md."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
