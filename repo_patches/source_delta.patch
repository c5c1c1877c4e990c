From e27967e88fd5e3b01496c8fb04e0460c550fa6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:09 +0000
Subject: [PATCH 01/24] fix: kalman_filter replacement indexes the filtered
 series and returns the data

---
 proadv/filtration/replacement/replacements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 8cb089f..e98f567 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -361,7 +361,8 @@ def kalman_filter(velocities, spike_indices, initial_state, initial_covariance,
     filtered_data = kl(modified_data, initial_state, initial_covariance, process_noise, measurement_noise)
 
     # Replace values at spikes indices with the kalman_filter values
-    modified_data[spike_indices] = filtered_data[spike_indices]
+    modified_data[spike_indices] = np.ravel(filtered_data)[spike_indices]
+    return modified_data
 
 
 def _create_model(velocities, velocities_indices, spike_indices, degree):
-- 
2.43.0


From eca74a121e60a24c6054b35dfa35424897c22b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:10 +0000
Subject: [PATCH 02/24] fix: calculate_ab falls back to a pair of coefficients
 for degenerate ellipses

---
 proadv/filtration/detection/poincare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/poincare.py b/proadv/filtration/detection/poincare.py
index 5d1f48f..3240550 100644
--- a/proadv/filtration/detection/poincare.py
+++ b/proadv/filtration/detection/poincare.py
@@ -22,7 +22,7 @@ def calculate_ab(std1, std2, theta, lambda_):
     fact = np.cos(theta) ** 4 - np.sin(theta) ** 4
     fa = (r1 ** 2 * np.cos(theta) ** 2 - r2 ** 2 * np.sin(theta) ** 2) / fact
     fb = (r2 ** 2 * np.cos(theta) ** 2 - r1 ** 2 * np.sin(theta) ** 2) / fact
-    return np.sqrt(fa), np.sqrt(fb) if fa > 0 and fb > 0 else (1e10, 1e10)
+    return (np.sqrt(fa), np.sqrt(fb)) if fa > 0 and fb > 0 else (1e10, 1e10)
 
 
 def calculate_rho(x, y, theta, a, b):
-- 
2.43.0


From d8500324cd16b9df49d91e16e45bb3fb2a2c4023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:11 +0000
Subject: [PATCH 03/24] fix: normal cdf accepts integer arrays and scalars

---
 proadv/statistics/distributions/normal.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 7af9195..c679912 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -47,14 +47,13 @@ def cdf(array):
     """
 
     from math import erf, erfc
-    array_cdf = np.copy(array)
+    array_cdf = np.array(array, dtype=float)
     D = array_cdf.shape  # array dimensions
     if array_cdf.size == 0:
         raise ValueError("cannot calculate PDF with empty array.")
     if np.isnan(array_cdf).any():
         raise TypeError('array cannot contain NaN values.')
-    if array_cdf.ndim > 1:
-        array_cdf = array_cdf.flatten()
+    array_cdf = array_cdf.flatten()
     np_sqrt = 1.0 / np.sqrt(2)
     array_ns = array_cdf * np_sqrt
     absolute_value = np.fabs(array_ns)
-- 
2.43.0


From 52b55bead43ab625c65679998eecb2dabe8d8b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 04/24] fix: kurtotest takes the real cube root for platykurtic
 data

---
 proadv/statistics/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index c679912..fbdc8b6 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -293,7 +293,7 @@ def kurtotest(data, alternative='two-sided'):
     elif np.isscalar(denom) and denom == 0.0:
         denom = np.ma.masked
 
-    term2 = np.ma.power((1 - 2.0 / a) / denom, 1 / 3.0)
+    term2 = np.sign(denom) * np.ma.power((1 - 2.0 / a) / np.abs(denom), 1 / 3.0)
 
     # Final z-score calculation
     z_score_final = (term1 - term2) / np.ma.sqrt(2 / (9.0 * a))
-- 
2.43.0


From 7c7befc7b43f729adfe343b14830a743d0c3d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:13 +0000
Subject: [PATCH 05/24] fix: mean keeps every convertible string of a mixed
 list

---
 proadv/statistics/descriptive.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/proadv/statistics/descriptive.py b/proadv/statistics/descriptive.py
index 50f90c5..d158b1c 100644
--- a/proadv/statistics/descriptive.py
+++ b/proadv/statistics/descriptive.py
@@ -207,18 +207,21 @@ def mean(array):
 
     # if at least one of the items in our list is not an int or float:
     if not isinstance(array, (int, float)) and np.size(np.array(array)) != 0:
-        for item in array:
-            if isinstance(item, str):
-                # Trys to convert the string to a float
-                try:
-                    array = list(array)
-                    index = array.index(item)
-                    array[index] = float(item)
-
-                except ValueError:
-                    # If conversion fails, it's not a number, so we take out the invalid data and calculate the rest
-                    array = [item for item in array if isinstance(item, (int, float))]
-                    continue
+        if any(isinstance(item, str) for item in array):
+            numbers = []
+            for item in array:
+                if isinstance(item, str):
+                    # Trys to convert the string to a float
+                    try:
+                        numbers.append(float(item))
+                    except ValueError:
+                        # If conversion fails, it's not a number, so we leave it out and calculate the rest
+                        continue
+                elif isinstance(item, (int, float, np.number)):
+                    numbers.append(item)
+            if not numbers:
+                return "Invalid input."
+            array = numbers
         mean_array = np.sum(array) / np.size(array)
         return mean_array
 
-- 
2.43.0


From 9587950bb635f4cb46398c9a8c5f5453ad705b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:14 +0000
Subject: [PATCH 06/24] fix: linear_interpolation accepts an empty set of
 spikes

---
 proadv/filtration/replacement/replacements.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index e98f567..814b4b0 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -123,6 +123,10 @@ def linear_interpolation(velocities, spike_indices, decimals=4):
     # Create a copy of the velocity data to avoid modifying the original array
     modified_data = np.copy(velocities)
 
+    # Without spikes there is nothing to interpolate
+    if np.size(spike_indices) == 0:
+        return np.around(modified_data, decimals=decimals)
+
     # Initialize spike values with NaN to facilitate interpolation
     modified_data[spike_indices] = np.nan
 
-- 
2.43.0


From d73f010b872cb66a23daa1cde1e29e623cb506b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:15 +0000
Subject: [PATCH 07/24] fix: cubic_12points_polynomial fits the 12 good samples
 on each side of the spike

---
 proadv/filtration/replacement/replacements.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 814b4b0..4dda70c 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -193,6 +193,13 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
     - The input velocities array is modified in-place to replace missing data points with interpolated values.
     """
 
+    if np.ndim(velocities) != 1:
+        raise ValueError("velocities must be a one-dimensional array.")
+
+    spike_indices = np.asarray(spike_indices, dtype=int)
+    if np.any(spike_indices < 0) or np.any(spike_indices >= len(velocities)):
+        raise ValueError("spike_indices contains invalid indices.")
+
     # Make a copy of velocities to preserve original data
     modified_data = velocities.copy()
 
@@ -203,15 +210,16 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
     x = np.array(list(range(1, 13)) + list(range(14, 26)))
 
     for i in spike_indices:
+        # Valid data points after the spike
+        following = modified_data[i:][~np.isnan(modified_data[i:])][0:12]
         # Check if index is near the boundaries
-        if i <= 30 or i >= (len(velocities) - 30):
+        if i <= 30 or i >= (len(velocities) - 30) or following.size < 12:
             # Use linear interpolation near the boundaries
-            modified_data[i] = np.around((velocities[i - 1] + modified_data[i:][~np.isnan(modified_data[i:])][0]) / 2,
-                                         4)
+            neighbours = np.append(modified_data[max(i - 1, 0): i], following[0:1])
+            modified_data[i] = np.around(np.mean(neighbours), 4)
         else:
             # Use cubic polynomial interpolation
-            yint = np.delete(np.append(velocities[i - 13: i], modified_data[i:][~np.isnan(modified_data[i:])][0:12]),
-                             12)
+            yint = np.append(modified_data[i - 12: i], following)
             f = interp1d(x, yint, 3)
             modified_data[i] = f(13)
     return np.around(modified_data, decimals=decimals)
-- 
2.43.0


From 1c2267a15ac897452dc316b709a79d2854df24ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:16 +0000
Subject: [PATCH 08/24] fix: polynomial_replacement handles single spikes and
 spikes up to index 10

---
 proadv/filtration/replacement/replacements.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 4dda70c..6c994e5 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -427,15 +427,17 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
     # Make a copy of velocities to preserve original data
     modified_data = velocities.copy()
     a = 0
-    for i in spike_indices.squeeze():
+    spike_indices = np.ravel(spike_indices)
+    for i in spike_indices:
         if i == 0:
             # If the first index of the data set is a spike, it will be replaced with the value of the mean of the data.
             modified_data[i] = np.mean(modified_data)
         elif 1 <= i <= 10:
             # Spikes 1 to 10 are replaced using linear interpolation algorithm
             if a == 0:
-                modified_data = linear_interpolation(modified_data,
-                                                     spike_indices[np.where(spike_indices < 10)[0]].squeeze(), decimals)
+                interior = spike_indices[spike_indices > 0]
+                early = interior[interior <= 10]
+                modified_data[early] = linear_interpolation(modified_data, interior, decimals)[early]
                 a += 1  # "a" is to run this algorithm only once.
         elif 11 <= i <= window - 1:
             # Predicting the appropriate spike value for indexes less than window
-- 
2.43.0


From 812e5e2dbdc447d5a74d5a0a82197661dceded92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:17 +0000
Subject: [PATCH 09/24] fix: kurtosis flattens its input as documented

---
 proadv/statistics/moment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/moment.py b/proadv/statistics/moment.py
index 4944be2..35c9032 100644
--- a/proadv/statistics/moment.py
+++ b/proadv/statistics/moment.py
@@ -104,8 +104,8 @@ def kurtosis(x):
     2.2
     """
 
-    # Convert data to a numpy array
-    x = np.array(x)
+    # Convert data to a flat numpy array
+    x = np.ravel(x)
 
     # Calculate the mean
     average = mean(x)
-- 
2.43.0


From afacc237e3eeafdfd3ad2c111e9258070f999f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:19 +0000
Subject: [PATCH 10/24] fix: phase-space premodification replaces data beyond
 either threshold, on a copy

---
 proadv/filtration/detection/phasespace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 87b22d3..60bab4c 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -153,6 +153,7 @@ def phasespace_thresholding_premodification(data, c1=1.5, c2=1.35):
         >>> phasespace_thresholding_premodification(data)
     """
 
+    data = np.array(data)
     data_size = data.size
     theta = np.median(np.absolute(data - np.median(data)))
 
@@ -163,8 +164,8 @@ def phasespace_thresholding_premodification(data, c1=1.5, c2=1.35):
     removable_threshold = c2 * theta * np.sqrt(2 * np.log(data_size))
 
     # Calculate indices of removable data
-    removable_indices = np.intersect1d(np.nonzero(data > removable_threshold)[0],
-                                       np.nonzero(data < -removable_threshold)[0])
+    removable_indices = np.union1d(np.nonzero(data > removable_threshold)[0],
+                                   np.nonzero(data < -removable_threshold)[0])
 
     # Replace removable data points with the preceding data point
     for i in removable_indices:
-- 
2.43.0


From eab81367e8fb1aca254d475033164d400799ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:20 +0000
Subject: [PATCH 11/24] fix: semi-axes of the rotated phase-space ellipse

---
 proadv/filtration/detection/phasespace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 60bab4c..53e3ec3 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -72,8 +72,8 @@ def calculate_parameters(c, dc, dc2):
     a2 = lambda_ * std_dc
     b2 = lambda_ * std_dc2
     fact = np.cos(theta) ** 4 - np.sin(theta) ** 4
-    a3 = np.sqrt(a1 ** 2 * np.cos(theta) ** 2 - b2 ** 2 * np.sin(theta) ** 2) / fact
-    b3 = np.sqrt(b2 ** 2 * np.cos(theta) ** 2 - a1 ** 2 * np.sin(theta) ** 2) / fact
+    a3 = np.sqrt((a1 ** 2 * np.cos(theta) ** 2 - b2 ** 2 * np.sin(theta) ** 2) / fact)
+    b3 = np.sqrt((b2 ** 2 * np.cos(theta) ** 2 - a1 ** 2 * np.sin(theta) ** 2) / fact)
     return std_c, std_dc, std_dc2, lambda_, theta, a1, b1, a2, b2, a3, b3
 
 
-- 
2.43.0


From 8b4581706a18863b8cac9c3d3dabbaad5679f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:21 +0000
Subject: [PATCH 12/24] fix: fminbound returns the best point found, matching
 the reported value

---
 proadv/statistics/optimize/optimize.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 40e6d35..96189b5 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -327,8 +327,7 @@ def _optimize_within_bounds(target_function, limit_bounds, extra_params=(),
     if np.isnan(x_optimal) or np.isnan(f_current) or np.isnan(f_temp):
         convergence_flag = 2
 
-    # Set the final optimal value and function value
-    x_optimal = x_current
+    # Set the final function value
     fval = f_current
     flag = convergence_flag
 
-- 
2.43.0


From aa9106da11106822dbe14c0ff7efb06137d1a498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:23 +0000
Subject: [PATCH 13/24] fix: brentq reports endpoint roots and non-convergence
 as documented

---
 proadv/statistics/optimize/optimize.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 96189b5..470ac79 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -66,9 +66,11 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
 
     # Check if we already have a root at the endpoints
     if fpre == 0:
-        return (xpre, 0, 0, 1) if full_output else xpre
+        return {'root': xpre, 'function_calls': 2, 'iterations': 0, 'converged': True,
+                'flag': 'converged'} if full_output else xpre
     if fcur == 0:
-        return (xb, 0, 0, 1) if full_output else xb
+        return {'root': xb, 'function_calls': 2, 'iterations': 0, 'converged': True,
+                'flag': 'converged'} if full_output else xb
 
     # Ensure the function has opposite signs at the endpoints (necessary condition for Brent's method)
     if np.sign(fpre) == np.sign(fcur):
@@ -150,7 +152,7 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
     if full_output:
         return result
     else:
-        return result['root']
+        raise ValueError("The algorithm failed to converge after {} iterations.".format(maxiter))
 
 
 def _optimize_within_bounds(target_function, limit_bounds, extra_params=(),
-- 
2.43.0


From 4275f614d1d8a9ebd91db22d34f451b35a6b4d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:24 +0000
Subject: [PATCH 14/24] fix: power_spectra treats overlap as a percentage of
 the block

---
 proadv/statistics/signal/spectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proadv/statistics/signal/spectrum.py b/proadv/statistics/signal/spectrum.py
index aab687f..fb65ea8 100644
--- a/proadv/statistics/signal/spectrum.py
+++ b/proadv/statistics/signal/spectrum.py
@@ -24,6 +24,7 @@ def power_spectra(data, sampling_frequency, overlap=50, block=2048, onesided=Tru
     win=hann(block, True)
 
     # Compute power spectral density
-    fxu, fyu = welch(data, sampling_frequency, window=win, noverlap=overlap, nfft=block, return_onesided=onesided)
+    noverlap = int(block * overlap / 100)
+    fxu, fyu = welch(data, sampling_frequency, window=win, noverlap=noverlap, nfft=block, return_onesided=onesided)
     
     return fxu, fyu
-- 
2.43.0


From 43df7fa12835219dd330bcd156796e79fc41e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:25 +0000
Subject: [PATCH 15/24] fix: pollution_rate measures downward excursions from
 the filtered signal

---
 proadv/filtration/detection/pollution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/pollution.py b/proadv/filtration/detection/pollution.py
index 05fd099..bf95c5e 100644
--- a/proadv/filtration/detection/pollution.py
+++ b/proadv/filtration/detection/pollution.py
@@ -21,7 +21,7 @@ def pollution_rate(x, xfil, k):
     pos = np.nonzero(x > xfil + k * std(x))
     
     # Find positions where x is below the negative threshold
-    neg = np.nonzero(x < -xfil - k * std(x))
+    neg = np.nonzero(x < xfil - k * std(x))
     
     # Concatenate positive and negative noises
     noises = np.concatenate((pos, neg), axis=None)
-- 
2.43.0


From fdcd89a1256c83685cb68eeb9a6b2f8d23a99b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:12 +0000
Subject: [PATCH 16/24] fix: bivariate_kernel applies the discrete cosine
 transform along columns and inverts it

---
 proadv/kernel/bivariate.py | 54 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/proadv/kernel/bivariate.py b/proadv/kernel/bivariate.py
index dd2b010..c114547 100644
--- a/proadv/kernel/bivariate.py
+++ b/proadv/kernel/bivariate.py
@@ -157,7 +157,7 @@ def _discrete_cosine_1d(data, weight):
     reordered = np.vstack((data[::2, :], data[::-2, :]))
     
     # Compute the discrete cosine transform using FFT
-    transform = np.real(weight * np.fft.fft(reordered))
+    transform = np.real(weight * np.fft.fft(reordered, axis=0))
     
     return transform
 
@@ -193,6 +193,56 @@ def _discrete_cosine_2d(data):
     return discrete
 
 
+def _inverse_discrete_cosine_1d(data, weight):
+    """
+    Compute the 1D inverse discrete cosine transform of the input data.
+
+    Parameters
+    ------
+    data (array_like): Input data array.
+    weight (array_like): Weight factors for the transform.
+
+    Returns
+    ------
+    inverse (array_like): 1D inverse discrete cosine transform of the input data.
+    """
+
+    # Invert the transform using FFT
+    reordered = np.real(np.fft.ifft(weight * data, axis=0))
+
+    # Restore the original order of the data
+    half = (data.shape[0] + 1) // 2
+    inverse = np.zeros(data.shape)
+    inverse[::2, :] = reordered[:half, :]
+    inverse[1::2, :] = reordered[:half - 1:-1, :]
+
+    return inverse
+
+
+def _inverse_discrete_cosine_2d(data):
+    """
+    Compute the 2D inverse discrete cosine transform of the input square data.
+
+    Parameters
+    ------
+    data (array_like): Input square data array.
+
+    Returns
+    ------
+    inverse (array_like): 2D inverse discrete cosine transform of the input data.
+    """
+
+    # Generate the weight factors for the transform
+    rows, columns = data.shape
+    w = np.exp(1j * np.arange(rows) * np.pi / (2 * rows))
+    weight = np.tile(w[:, np.newaxis], (1, columns))
+
+    # Compute the 1D inverse discrete cosine transform for each row and column
+    inverse = _inverse_discrete_cosine_1d(_inverse_discrete_cosine_1d(data, weight).T, weight).T
+
+    return inverse
+
+
 def _k(s_indices):
     """
     Compute the k-value based on the given indices.
@@ -423,7 +473,7 @@ def bivariate_kernel(data, hx, hy, grid):
     a_t = np.matmul(v1, v2) * discrete
     
     # Compute density matrix
-    density_mx = _discrete_cosine_2d(a_t) * (a_t.size / np.prod(scale))
+    density_mx = _inverse_discrete_cosine_2d(a_t) * (a_t.size / np.prod(scale))
     density_mx[density_mx < 0] = np.finfo(float).eps
     
     # Create vectors for x and y values
-- 
2.43.0


From 21eda0e7081f2ad8229b80b35e9288c09a80fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:08 +0000
Subject: [PATCH 17/24] fix: spherical thresholding does not lose spikes
 projected onto the ellipsoid equator

---
 proadv/filtration/detection/spherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/spherical.py b/proadv/filtration/detection/spherical.py
index bc27337..a289233 100644
--- a/proadv/filtration/detection/spherical.py
+++ b/proadv/filtration/detection/spherical.py
@@ -121,7 +121,7 @@ def _spike_indices(x, y, z, a, b, c):
         z1 = z[i]
         x2 = np.around(a * b * c * x1 / np.sqrt((a * c * y1) ** 2 + b ** 2 * (c ** 2 * x1 ** 2 + a ** 2 * z1 ** 2)), 4)
         y2 = np.around(a * b * c * y1 / np.sqrt((a * c * y1) ** 2 + b ** 2 * (c ** 2 * x1 ** 2 + a ** 2 * z1 ** 2)), 4)
-        zt = np.around(c ** 2 * (1 - (x2 / a) ** 2 - (y2 / b) ** 2), 4)
+        zt = np.around(c ** 2 * max(1 - (x2 / a) ** 2 - (y2 / b) ** 2, 0), 4)
         if z1 < 0:
             z2 = -np.around(np.sqrt(zt), 4)
         elif z1 > 0:
-- 
2.43.0


From 4cd55146317f96f5ec896959ae35e61a4c52f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:53 +0000
Subject: [PATCH 18/24] fix: brentq counts every function call when it does not
 converge

---
 proadv/statistics/optimize/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 470ac79..c7616b8 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -144,7 +144,7 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
     # If we reach here, the method did not converge within the maximum number of iterations
     result = {
         'root': xcur,
-        'function_calls': i + 2,
+        'function_calls': maxiter + 2,
         'iterations': i + 1,
         'converged': False,
         'flag': 'convergence not achieved'
-- 
2.43.0


From 36d9003d2ca8447d8dc722cff2746b1fd23fbb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:39 +0000
Subject: [PATCH 19/24] fix: brentq bisects when the interpolation denominator
 underflows

---
 proadv/statistics/optimize/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index c7616b8..3590ef4 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -114,7 +114,9 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
                 # Extrapolation
                 dpre = (fpre - fcur) / (xpre - xcur)
                 dblk = (fblk - fcur) / (xblk - xcur)
-                stry = -fcur * (fblk * dblk - fpre * dpre) / (dblk * dpre * (fblk - fpre))
+                denominator = dblk * dpre * (fblk - fpre)
+                # A denominator that underflows gives no step: bisect instead
+                stry = -fcur * (fblk * dblk - fpre * dpre) / denominator if denominator != 0 else np.inf
 
             # Decide if we accept the interpolation/extrapolation
             if 2 * abs(stry) < min(abs(spre), 3 * abs(sbis) - delta):
-- 
2.43.0


From 0a9af94846690de684d07b9314b231d629fbfecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:51 +0000
Subject: [PATCH 20/24] fix: moving average and accelerations wrap around on
 narrow or unsigned integer records

---
 proadv/filtration/detection/acceleration.py | 2 +-
 proadv/statistics/series.py                 | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/acceleration.py b/proadv/filtration/detection/acceleration.py
index a993c36..8731f44 100644
--- a/proadv/filtration/detection/acceleration.py
+++ b/proadv/filtration/detection/acceleration.py
@@ -46,7 +46,7 @@ def acceleration_thresholding(velocities, frequency, tag, gravity=980, k_gravity
             "Despiking acoustic Doppler velocimeter data."
             Journal of hydraulic engineering 128.1 (2002): 117-126.
     """
-    velocities = np.asarray(velocities)
+    velocities = np.asarray(velocities, dtype=float)  # accelerations of integer records would wrap around
 
     # Calculate velocity differences and multiply by frequency to obtain acceleration
     differences = np.concatenate((np.array([0]), np.diff(velocities) * frequency))
diff --git a/proadv/statistics/series.py b/proadv/statistics/series.py
index ef5a1b1..36c9397 100644
--- a/proadv/statistics/series.py
+++ b/proadv/statistics/series.py
@@ -55,6 +55,7 @@ def moving_average(data, window_size=20):
     if window_size > data.size:
         raise ValueError("Data array size must be greater than window size.")
 
+    data = data.astype(float)  # differences of narrow or unsigned integers would wrap around
     ma = np.zeros(data.size)  # Moving Average
 
     # Calculate the initial moving average for the first window_size elements
-- 
2.43.0


From 8e350e666c1a6e97b7ffbd73e77ab00fe4c83c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:13 +0000
Subject: [PATCH 21/24] fix: replacements truncate or refuse integer records
 and refuse documented array-likes

---
 proadv/filtration/replacement/replacements.py | 43 +++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 6c994e5..4c2002c 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -5,6 +5,22 @@ from sklearn.preprocessing import PolynomialFeatures
 from sklearn.linear_model import LinearRegression
 
 
+def _as_record(velocities):
+    """
+    Velocities as an array that can hold replacement values (integer records become floating-point).
+    """
+    velocities = np.asarray(velocities)
+    return velocities if velocities.dtype.kind == 'f' else velocities.astype(float)
+
+
+def _as_indices(spike_indices):
+    """
+    Spike indices as an array that can be used for indexing (also when it is empty).
+    """
+    spike_indices = np.asarray(spike_indices)
+    return spike_indices if spike_indices.size else spike_indices.astype(int)
+
+
 def last_valid_data(velocities, spike_indices):
     """
     Replace spike values in velocities array with the last valid data before each.
@@ -48,6 +64,9 @@ def mean_value(velocities, spike_indices):
         An array containing the modified data.
     """
 
+    velocities = _as_record(velocities)
+    spike_indices = _as_indices(spike_indices)
+
     # Create a copy of the original data
     modified_data = np.copy(velocities)
 
@@ -74,6 +93,9 @@ def median_value(velocities, spike_indices):
         An array containing the modified data.
     """
 
+    velocities = _as_record(velocities)
+    spike_indices = _as_indices(spike_indices)
+
     # Create a copy of the original data
     modified_data = np.copy(velocities)
 
@@ -120,6 +142,9 @@ def linear_interpolation(velocities, spike_indices, decimals=4):
 
     """
 
+    velocities = _as_record(velocities)
+    spike_indices = _as_indices(spike_indices)
+
     # Create a copy of the velocity data to avoid modifying the original array
     modified_data = np.copy(velocities)
 
@@ -196,6 +221,7 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
     if np.ndim(velocities) != 1:
         raise ValueError("velocities must be a one-dimensional array.")
 
+    velocities = _as_record(velocities)
     spike_indices = np.asarray(spike_indices, dtype=int)
     if np.any(spike_indices < 0) or np.any(spike_indices >= len(velocities)):
         raise ValueError("spike_indices contains invalid indices.")
@@ -244,6 +270,9 @@ def simple_moving_average(velocities, spike_indices, window_size=20):
 
     from proadv.statistics.series import moving_average as ma
 
+    velocities = _as_record(velocities)
+    spike_indices = _as_indices(spike_indices)
+
     # Create a copy of the original data
     modified_data = np.copy(velocities)
 
@@ -274,6 +303,9 @@ def exponential_moving_average(velocities, spike_indices, alpha=0.2):
 
     from proadv.statistics.series import exponential_moving_average as expo
 
+    velocities = _as_record(velocities)
+    spike_indices = _as_indices(spike_indices)
+
     # Create a copy of the original data
     modified_data = np.copy(velocities)
 
@@ -304,6 +336,9 @@ def weighted_moving_average(velocities, spike_indices, period=20):
 
     from proadv.statistics.series import weighted_moving_average as wm
 
+    velocities = _as_record(velocities)
+    spike_indices = _as_indices(spike_indices)
+
     # Create a copy of the original data
     modified_data = np.copy(velocities)
 
@@ -334,6 +369,9 @@ def ssa(velocities, spike_indices, fs, f):
 
     from proadv.statistics.series import ssa as sa
 
+    velocities = _as_record(velocities)
+    spike_indices = _as_indices(spike_indices)
+
     # Create a copy of the original data
     modified_data = np.copy(velocities)
 
@@ -366,6 +404,9 @@ def kalman_filter(velocities, spike_indices, initial_state, initial_covariance,
 
     from proadv.statistics.series import kalman_filter as kl
 
+    velocities = _as_record(velocities)
+    spike_indices = _as_indices(spike_indices)
+
     # Create a copy of the original data
     modified_data = np.copy(velocities)
 
@@ -424,6 +465,8 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
         modified_data(array_like): The final data after running the algorithm and replacement.
     """
 
+    velocities = _as_record(velocities)
+
     # Make a copy of velocities to preserve original data
     modified_data = velocities.copy()
     a = 0
-- 
2.43.0


From 78ef2ed5dfe8dc75a4c9927916177d07524a9bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:33 +0000
Subject: [PATCH 22/24] fix: normal density wraps around on narrow integer
 arrays

---
 proadv/statistics/distributions/normal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index fbdc8b6..b2765fd 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -125,6 +125,7 @@ def pdf(array, std=1, mean=0):
         raise ValueError("cannot calculate PDF with empty array")
     if np.isnan(array).any():
         raise TypeError('array cannot contain NaN values.')
+    array = array.astype(float)  # squares of narrow integers would wrap around
     x = (-0.5 * np.log(2 * np.pi)) - np.log(std)
     y = np.power(array - mean, 2) / (2 * (std * std))
     array_pdf = np.exp(x - y)
-- 
2.43.0


From c5c623a1fea379aa3ea9f176f35f17dad5a1cd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:33 +0000
Subject: [PATCH 23/24] fix: phase-space and kernel detection truncate
 derivatives of integer records

---
 proadv/filtration/detection/phasespace.py       | 6 ++++++
 proadv/filtration/detection/trivariatekernel.py | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 53e3ec3..d709d84 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -16,6 +16,8 @@ def calculate_derivatives(c):
         dc (array_like): First derivative of the input data.
         dc2 (array_like): Second derivative of the input data.
     """
+    c = np.asarray(c, dtype=float)  # the derivatives of integer records would be truncated
+
     # Initialize arrays for first and second derivatives
     dc = np.zeros_like(c)
     dc2 = np.zeros_like(c)
@@ -55,6 +57,8 @@ def calculate_parameters(c, dc, dc2):
         a3 (float): Coefficient 'a3'.
         b3 (float): Coefficient 'b3'.
     """
+    c, dc, dc2 = (np.asarray(component, dtype=float) for component in (c, dc, dc2))
+
     # Calculate standard deviations
     std_c = std(c)
     std_dc = std(dc)
@@ -101,6 +105,8 @@ def phasespace_thresholding(c):
             Journal of hydraulic engineering 128.1 (2002): 117-126.
     """
 
+    c = np.asarray(c, dtype=float)
+
     # Calculate first and second order derivatives of the input data
     dc, dc2 = calculate_derivatives(c)
 
diff --git a/proadv/filtration/detection/trivariatekernel.py b/proadv/filtration/detection/trivariatekernel.py
index b12cd3e..f852f5a 100644
--- a/proadv/filtration/detection/trivariatekernel.py
+++ b/proadv/filtration/detection/trivariatekernel.py
@@ -472,6 +472,7 @@ def kernel(u1, w1, grid):
     Spieks Indices and estimation.
     """
 
+    u1, w1 = np.asarray(u1, dtype=float), np.asarray(w1, dtype=float)
     dataset = np.array([u1, w1])
     theta = _rotation(u1, w1)
     ut, wt = _transform(u1, w1, theta)
@@ -513,6 +514,7 @@ def three_dimensional_kernel(data, grid):
     ------
     Spikes  indices.
     """
+    data = np.asarray(data, dtype=float)  # the derivatives of integer records would be truncated
     dc, dc2 = _derivatives(data)
     x1, _ = kernel(data, dc, grid)
     x2, _ = kernel(data, dc2, grid)
-- 
2.43.0


From 6997abd246f92804d74388b796c749e935f667fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:24 +0000
Subject: [PATCH 24/24] fix: kernel estimates the density of the rotated data
 it reports on the rotated grid

---
 proadv/filtration/detection/trivariatekernel.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/trivariatekernel.py b/proadv/filtration/detection/trivariatekernel.py
index f852f5a..3950ca1 100644
--- a/proadv/filtration/detection/trivariatekernel.py
+++ b/proadv/filtration/detection/trivariatekernel.py
@@ -473,14 +473,13 @@ def kernel(u1, w1, grid):
     """
 
     u1, w1 = np.asarray(u1, dtype=float), np.asarray(w1, dtype=float)
-    dataset = np.array([u1, w1])
     theta = _rotation(u1, w1)
     ut, wt = _transform(u1, w1, theta)
     mesh_u, mesh_w = _scaling(ut, wt, grid)
     uf, wf = _profile(mesh_u, mesh_w)
     positions, values = _position(mesh_u, mesh_w, ut, wt)
     evals = _density(values)
-    evole = _evolve(dataset, positions, evals)
+    evole = _evolve(values, positions, evals)
     estimation = _estimation(evole.T, mesh_u)
     density = np.reshape(kde(values)(positions).T, mesh_u.shape)
     peak, up, wp, fu, fw = _peak(density)
-- 
2.43.0

