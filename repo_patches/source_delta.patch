From e4e85790caab271716abdfadf368f7adbfa6796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:18 +0000
Subject: [PATCH 01/43] fix: PowerLaw cdf outside its range and density at zero

The cdf was not clipped to the support (e.g. PowerLaw(1, 1, 2).cdf(-99) was 1,
odd exponents gave nan), ln_prob(0) was nan for negative exponents and
prob(0.) raised ZeroDivisionError.
---
 bilby/core/prior/analytical.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 5e7b309..1660bb0 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -123,9 +123,9 @@ class PowerLaw(Prior):
         float: Prior probability of val
         """
         if self.alpha == -1:
-            return np.nan_to_num(1 / val / np.log(self.maximum / self.minimum)) * self.is_in_prior_range(val)
+            return np.nan_to_num(np.divide(1, val) / np.log(self.maximum / self.minimum)) * self.is_in_prior_range(val)
         else:
-            return np.nan_to_num(val ** self.alpha * (1 + self.alpha) /
+            return np.nan_to_num(np.float_power(val, self.alpha) * (1 + self.alpha) /
                                  (self.maximum ** (1 + self.alpha) -
                                   self.minimum ** (1 + self.alpha))) * self.is_in_prior_range(val)
 
@@ -149,11 +149,12 @@ class PowerLaw(Prior):
 
         with np.errstate(divide='ignore', invalid='ignore'):
             ln_in_range = np.log(1. * self.is_in_prior_range(val))
-            ln_p = self.alpha * np.nan_to_num(np.log(val)) + np.log(normalising)
+            ln_p = np.nan_to_num(self.alpha * np.log(val)) + np.log(normalising)
 
         return ln_p + ln_in_range
 
     def cdf(self, val):
+        val = np.clip(np.asarray(val, dtype=float), self.minimum, self.maximum)
         if self.alpha == -1:
             _cdf = (np.log(val / self.minimum) /
                     np.log(self.maximum / self.minimum))
-- 
2.43.0


From c3c64cace3dee1856dcc44c1fdbd03d47811ebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:18 +0000
Subject: [PATCH 02/43] fix: normalise Sine and Cosine densities for
 non-default bounds

---
 bilby/core/prior/analytical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 1660bb0..418de59 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -413,7 +413,7 @@ class Cosine(Prior):
         =======
         float: Prior probability of val
         """
-        return np.cos(val) / 2 * self.is_in_prior_range(val)
+        return np.cos(val) / (np.sin(self.maximum) - np.sin(self.minimum)) * self.is_in_prior_range(val)
 
     def cdf(self, val):
         _cdf = np.atleast_1d((np.sin(val) - np.sin(self.minimum)) /
@@ -467,7 +467,7 @@ class Sine(Prior):
         =======
         Union[float, array_like]: Prior probability of val
         """
-        return np.sin(val) / 2 * self.is_in_prior_range(val)
+        return np.sin(val) / (np.cos(self.minimum) - np.cos(self.maximum)) * self.is_in_prior_range(val)
 
     def cdf(self, val):
         _cdf = np.atleast_1d((np.cos(val) - np.cos(self.minimum)) /
-- 
2.43.0


From e9142fed0ecd51efe0d48afa1a740130222b3146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:41 +0000
Subject: [PATCH 03/43] fix: SymmetricLogUniform range of negative values and
 ln_prob outside the range

ln_prob was finite outside the support (where prob is zero) and negative
samples of the prior were reported as out of its range.
---
 bilby/core/prior/analytical.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 418de59..57490a8 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -354,7 +354,23 @@ class SymmetricLogUniform(Prior):
         float:
 
         """
-        return np.nan_to_num(- np.log(2 * np.abs(val)) - np.log(np.log(self.maximum / self.minimum)))
+        with np.errstate(divide='ignore'):
+            ln_in_range = np.log(1. * self.is_in_prior_range(val))
+            return np.nan_to_num(- np.log(2 * np.abs(val)) - np.log(np.log(self.maximum / self.minimum))) + ln_in_range
+
+    def is_in_prior_range(self, val):
+        """Returns True if the absolute value of val is in the prior boundaries, zero otherwise
+
+        Parameters
+        ==========
+        val: Union[float, int, array_like]
+
+        Returns
+        =======
+        np.nan
+
+        """
+        return super(SymmetricLogUniform, self).is_in_prior_range(np.abs(val))
 
     def cdf(self, val):
         val = np.atleast_1d(val)
-- 
2.43.0


From 584fc4370887ae8f1c2891915675b9b2e7efdc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:41 +0000
Subject: [PATCH 04/43] fix: Triangular prior follows changes of its mode and
 bounds

---
 bilby/core/prior/analytical.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 57490a8..605ee0a 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -1556,12 +1556,22 @@ class Triangular(Prior):
             maximum=maximum,
         )
         self.mode = mode
-        self.fractional_mode = (self.mode - self.minimum) / (
-            self.maximum - self.minimum
-        )
-        self.scale = self.maximum - self.minimum
-        self.rescaled_minimum = self.minimum - (self.minimum == self.mode) * self.scale
-        self.rescaled_maximum = self.maximum + (self.maximum == self.mode) * self.scale
+
+    @property
+    def scale(self):
+        return self.maximum - self.minimum
+
+    @property
+    def fractional_mode(self):
+        return (self.mode - self.minimum) / self.scale
+
+    @property
+    def rescaled_minimum(self):
+        return self.minimum - (self.minimum == self.mode) * self.scale
+
+    @property
+    def rescaled_maximum(self):
+        return self.maximum + (self.maximum == self.mode) * self.scale
 
     def rescale(self, val):
         """
-- 
2.43.0


From 4a248906b7ff78cdc0796e4dc641ab9b7e85f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:52 +0000
Subject: [PATCH 05/43] fix: UniformInComponentsMassRatio outside its range and
 after changing its bounds

The cdf was not clipped to the support, the density was nan for negative
values, and norm/inverse cdf were not updated when the bounds were changed.
---
 bilby/gw/prior.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index b353c60..edece21 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -433,17 +433,41 @@ class UniformInComponentsMassRatio(Prior):
         super(UniformInComponentsMassRatio, self).__init__(
             minimum=minimum, maximum=maximum, name=name,
             latex_label=latex_label, unit=unit, boundary=boundary)
-        self.norm = self._integral(maximum) - self._integral(minimum)
-        qs = np.linspace(minimum, maximum, 1000)
+        self._update_instance()
+
+    @property
+    def minimum(self):
+        return self._minimum
+
+    @minimum.setter
+    def minimum(self, minimum):
+        self._minimum = minimum
+        if hasattr(self, "norm"):
+            self._update_instance()
+
+    @property
+    def maximum(self):
+        return self._maximum
+
+    @maximum.setter
+    def maximum(self, maximum):
+        self._maximum = maximum
+        if hasattr(self, "norm"):
+            self._update_instance()
+
+    def _update_instance(self):
+        self.norm = self._integral(self.maximum) - self._integral(self.minimum)
+        qs = np.linspace(self.minimum, self.maximum, 1000)
         self.icdf = WrappedInterp1d(
             self.cdf(qs), qs, kind='cubic',
-            bounds_error=False, fill_value=(minimum, maximum))
+            bounds_error=False, fill_value=(self.minimum, self.maximum))
 
     @staticmethod
     def _integral(q):
         return -5. * q**(-1. / 5.) * hyp2f1(-2. / 5., -1. / 5., 4. / 5., -q)
 
     def cdf(self, val):
+        val = np.clip(val, self.minimum, self.maximum)
         return (self._integral(val) - self._integral(self.minimum)) / self.norm
 
     def rescale(self, val):
@@ -457,6 +481,7 @@ class UniformInComponentsMassRatio(Prior):
 
     def prob(self, val):
         in_prior = (val >= self.minimum) & (val <= self.maximum)
+        val = np.clip(val, self.minimum, self.maximum)
         with np.errstate(invalid="ignore"):
             prob = (1. + val)**(2. / 5.) / (val**(6. / 5.)) / self.norm * in_prior
         return prob
-- 
2.43.0


From 9bff82e63e27839431b6dea92d51371c9c5ff5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:16 +0000
Subject: [PATCH 06/43] fix: SlabSpikePrior follows changes of its spike
 location and height

---
 bilby/core/prior/slabspike.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bilby/core/prior/slabspike.py b/bilby/core/prior/slabspike.py
index 92664b1..6184461 100644
--- a/bilby/core/prior/slabspike.py
+++ b/bilby/core/prior/slabspike.py
@@ -36,10 +36,11 @@ class SlabSpikePrior(Prior):
                          check_range_nonzero=self.slab.check_range_nonzero, boundary=self.slab.boundary)
         self.spike_location = spike_location
         self.spike_height = spike_height
-        try:
-            self.inverse_cdf_below_spike = self._find_inverse_cdf_fraction_before_spike()
-        except Exception as e:
-            logger.warning("Disregard the following warning when running tests:\n {}".format(e))
+
+    @property
+    def inverse_cdf_below_spike(self):
+        """ Fraction of the unit interval that is mapped below the spike. """
+        return self._find_inverse_cdf_fraction_before_spike()
 
     @property
     def spike_location(self):
-- 
2.43.0


From 1e210ee4a40000a52456fedd4676c81caada2b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:01 +0000
Subject: [PATCH 07/43] fix: prior collections refresh derived state on every
 edit of their contents

---
 bilby/core/prior/dict.py | 51 ++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 3722c62..260c346 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -32,6 +32,7 @@ class PriorDict(dict):
             Default is no conversion.
         """
         super(PriorDict, self).__init__()
+        self._cached_normalizations = {}
         if isinstance(dictionary, dict):
             self.from_dictionary(dictionary)
         elif type(dictionary) is str:
@@ -44,7 +45,6 @@ class PriorDict(dict):
             self.from_file(filename)
         elif dictionary is not None:
             raise ValueError("PriorDict input dictionary not understood")
-        self._cached_normalizations = {}
 
         self.convert_floats_to_delta_functions()
 
@@ -640,6 +640,45 @@ class PriorDict(dict):
                 redundant = True
         return redundant
 
+    def _contents_changed(self):
+        """Discard everything that was derived from the previous contents"""
+        self._cached_normalizations = {}
+
+    def __setitem__(self, key, value):
+        super(PriorDict, self).__setitem__(key, value)
+        self._contents_changed()
+
+    def __delitem__(self, key):
+        super(PriorDict, self).__delitem__(key)
+        self._contents_changed()
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
+    def update(self, *args, **kwargs):
+        super(PriorDict, self).update(*args, **kwargs)
+        self._contents_changed()
+
+    def setdefault(self, key, default=None):
+        value = super(PriorDict, self).setdefault(key, default)
+        self._contents_changed()
+        return value
+
+    def pop(self, *args):
+        value = super(PriorDict, self).pop(*args)
+        self._contents_changed()
+        return value
+
+    def popitem(self):
+        item = super(PriorDict, self).popitem()
+        self._contents_changed()
+        return item
+
+    def clear(self):
+        super(PriorDict, self).clear()
+        self._contents_changed()
+
     def copy(self):
         """
         We have to overwrite the copy method as it fails due to the presence of
@@ -701,6 +740,8 @@ class ConditionalPriorDict(PriorDict):
                     self._conditional_keys.append(key)
                     conditional_keys_unsorted.remove(key)
 
+        self._rescale_indexes = []
+        self._least_recently_rescaled_keys = []
         self._resolved = True
         if len(conditional_keys_unsorted) != 0:
             self._resolved = False
@@ -893,12 +934,8 @@ class ConditionalPriorDict(PriorDict):
             if not isinstance(self[key], (DeltaFunction, Constraint))
         ]
 
-    def __setitem__(self, key, value):
-        super(ConditionalPriorDict, self).__setitem__(key, value)
-        self._resolve_conditions()
-
-    def __delitem__(self, key):
-        super(ConditionalPriorDict, self).__delitem__(key)
+    def _contents_changed(self):
+        super(ConditionalPriorDict, self)._contents_changed()
         self._resolve_conditions()
 
 
-- 
2.43.0


From 32b5419853aad8fb8b2773b0cfdfc154a0919c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:01 +0000
Subject: [PATCH 08/43] fix: copies of a prior collection keep its conversion
 function

---
 bilby/core/prior/dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 260c346..54a08f5 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -684,7 +684,10 @@ class PriorDict(dict):
         We have to overwrite the copy method as it fails due to the presence of
         defaults.
         """
-        return self.__class__(dictionary=dict(self))
+        new = self.__class__(dictionary=dict(self))
+        if self.conversion_function != self.default_conversion_function:
+            new.conversion_function = self.conversion_function
+        return new
 
 
 class PriorDictException(Exception):
-- 
2.43.0


From 2dd555ac74243910e001d89307487fa9cef9946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:01 +0000
Subject: [PATCH 09/43] fix: prior collections do not modify the caller's
 dictionary or list of keys

---
 bilby/core/prior/dict.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 54a08f5..dcc76bb 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -206,6 +206,7 @@ class PriorDict(dict):
         return obj
 
     def from_dictionary(self, dictionary):
+        dictionary = dict(dictionary)
         jpdkwargs = {}
         for key in list(dictionary.keys()):
             val = dictionary[key]
@@ -448,9 +449,7 @@ class PriorDict(dict):
                     return sample
         else:
             needed = np.prod(size)
-            for key in keys.copy():
-                if isinstance(self[key], Constraint):
-                    del keys[keys.index(key)]
+            keys = [key for key in keys if not isinstance(self[key], Constraint)]
             all_samples = {key: np.array([]) for key in keys}
             _first_key = list(all_samples.keys())[0]
             while len(all_samples[_first_key]) < needed:
-- 
2.43.0


From 89ba7f9ea835ce00810df56a1dec020614407a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 10/43] fix: conditional priors on fixed parents and with
 per-sample conditions use the right parent values

---
 bilby/core/prior/dict.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index dcc76bb..3cc49e4 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -781,13 +781,17 @@ class ConditionalPriorDict(PriorDict):
                 except ValueError:
                     # Some prior classes can not handle an array of conditional parameters (e.g. alpha for PowerLaw)
                     # If that is the case, we sample each sample individually.
-                    required_variables = subset_dict.get_required_variables(key)
+                    required_variables = {
+                        name: np.broadcast_to(value, size)
+                        for name, value in subset_dict.get_required_variables(key).items()
+                    }
                     samples[key] = np.zeros(size)
-                    for i in range(size):
+                    for i in np.ndindex(samples[key].shape):
                         rvars = {
-                            key: value[i] for key, value in required_variables.items()
+                            name: value[i] for name, value in required_variables.items()
                         }
                         samples[key][i] = subset_dict[key].sample(**rvars)
+                    subset_dict[key].least_recently_sampled = samples[key]
             else:
                 logger.debug("{} not a known prior.".format(key))
         return samples
@@ -805,7 +809,7 @@ class ConditionalPriorDict(PriorDict):
         dict: key/value pairs of the required variables
         """
         return {
-            k: self[k].least_recently_sampled
+            k: self[k].peak if isinstance(self[k], DeltaFunction) else self[k].least_recently_sampled
             for k in getattr(self[key], "required_variables", [])
         }
 
-- 
2.43.0


From 20a3b618f2c345d49c6f5c5f39662148c953aec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:39 +0000
Subject: [PATCH 11/43] fix: PowerLaw ln_prob is -inf where its density
 vanishes at zero

---
 bilby/core/prior/analytical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 605ee0a..b8d4b77 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -149,7 +149,7 @@ class PowerLaw(Prior):
 
         with np.errstate(divide='ignore', invalid='ignore'):
             ln_in_range = np.log(1. * self.is_in_prior_range(val))
-            ln_p = np.nan_to_num(self.alpha * np.log(val)) + np.log(normalising)
+            ln_p = np.nan_to_num(self.alpha * np.log(val), neginf=-np.inf) + np.log(normalising)
 
         return ln_p + ln_in_range
 
-- 
2.43.0


From 13eb54cf2d0b99f66f0a3e86db7fc779cd001d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:34 +0000
Subject: [PATCH 12/43] fix: joint priors vanish outside their bounds in every
 dimension

---
 bilby/core/prior/joint.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index 43c8913..f44a1f4 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -209,11 +209,9 @@ class BaseJointPriorDist(object):
             raise ValueError("Array is the wrong shape")
 
         # check sample(s) is within bounds
-        outbounds = np.ones(samp.shape[0], dtype=bool)
+        outbounds = np.zeros(samp.shape[0], dtype=bool)
         for s, bound in zip(samp.T, self.bounds.values()):
-            outbounds = (s < bound[0]) | (s > bound[1])
-            if np.any(outbounds):
-                break
+            outbounds |= (s < bound[0]) | (s > bound[1])
         return samp, outbounds
 
     def ln_prob(self, value):
-- 
2.43.0


From c43860374f4f99b5b4e609dfce7d855afd55dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:34 +0000
Subject: [PATCH 13/43] fix: multivariate Gaussian mixtures weight their modes

---
 bilby/core/prior/joint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index f44a1f4..b0ad4ee 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -679,7 +679,8 @@ class MultivariateGaussianDist(BaseJointPriorDist):
             for i in range(self.nmodes):
                 # self.mvn[i] is a "standard" multivariate normal distribution; see add_mode()
                 z = (samp[j] - self.mus[i]) / self.sigmas[i]
-                lnprob[j] = np.logaddexp(lnprob[j], self.mvn[i].logpdf(z) - self.logprodsigmas[i])
+                ln_weight = np.log(self.weights[i] / np.sum(self.weights))
+                lnprob[j] = np.logaddexp(lnprob[j], ln_weight + self.mvn[i].logpdf(z) - self.logprodsigmas[i])
 
         # set out-of-bounds values to -inf
         lnprob[outbounds] = -np.inf
-- 
2.43.0


From 158e900785f5dff83f0630a97376132120b26675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:34 +0000
Subject: [PATCH 14/43] fix: joint prior members get their own values in any
 order and no stale requests

---
 bilby/core/prior/dict.py | 45 ++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 3cc49e4..7ce9166 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -413,6 +413,8 @@ class PriorDict(dict):
         dict: Dictionary of the drawn samples
         """
         self.convert_floats_to_delta_functions()
+        keys = list(keys)
+        self._reset_joint_requests(keys)
         samples = dict()
         for key in keys:
             if isinstance(self[key], Constraint):
@@ -513,6 +515,7 @@ class PriorDict(dict):
         float: Joint probability of all individual sample probabilities
 
         """
+        self._reset_joint_requests(sample)
         prob = np.prod([self[key].prob(sample[key]) for key in sample], **kwargs)
 
         return self.check_prob(sample, prob)
@@ -552,6 +555,7 @@ class PriorDict(dict):
             Joint log probability of all the individual sample probabilities
 
         """
+        self._reset_joint_requests(sample)
         ln_prob = np.sum([self[key].ln_prob(sample[key]) for key in sample], axis=axis)
         return self.check_ln_prob(sample, ln_prob,
                                   normalized=normalized)
@@ -608,9 +612,33 @@ class PriorDict(dict):
         """
         from matplotlib.cbook import flatten
 
-        return list(
-            flatten([self[key].rescale(sample) for key, sample in zip(keys, theta)])
-        )
+        keys = list(keys)
+        self._reset_joint_requests(keys)
+        result = dict()
+        for key, sample in zip(keys, theta):
+            self._store_rescaled(result, key, self[key].rescale(sample))
+        return list(flatten([result[key] for key in keys]))
+
+    def _reset_joint_requests(self, keys):
+        """Forget what earlier, incomplete evaluations requested of the joint priors"""
+        for key in keys:
+            if isinstance(self[key], JointPrior):
+                self[key].dist.reset_request()
+                self[key].dist.reset_rescale()
+                self[key].dist.reset_sampled()
+
+    def _store_rescaled(self, result, key, sample):
+        """Store a rescaled sample, joint samples are shared out between the members of the distribution"""
+        result[key] = sample
+        if not isinstance(self[key], JointPrior) or np.size(sample) == 0:
+            return
+        dist = self[key].dist
+        sample = np.reshape(sample, (-1, len(dist)))
+        for member in result:
+            if isinstance(self[member], JointPrior) and self[member].dist is dist:
+                values = sample[:, dist.names.index(self[member].name)]
+                result[member] = values[0] if len(values) == 1 else values
+                self[member].least_recently_sampled = result[member]
 
     def test_redundancy(self, key, disable_logging=False):
         """Empty redundancy test, should be overwritten in subclasses"""
@@ -763,12 +791,14 @@ class ConditionalPriorDict(PriorDict):
             for key in self.keys()
             if key not in keys and isinstance(self[key], DeltaFunction)
         ]
-        use_keys = add_delta_keys + list(keys)
+        keys = list(keys)
+        use_keys = add_delta_keys + keys
         subset_dict = ConditionalPriorDict({key: self[key] for key in use_keys})
         if not subset_dict._resolved:
             raise IllegalConditionsException(
                 "The current set of priors contains unresolvable conditions."
             )
+        self._reset_joint_requests(keys)
         samples = dict()
         for key in subset_dict.sorted_keys:
             if key not in keys or isinstance(self[key], Constraint):
@@ -891,14 +921,16 @@ class ConditionalPriorDict(PriorDict):
         theta = list(theta)
         self._check_resolved()
         self._update_rescale_keys(keys)
+        self._reset_joint_requests(keys)
         result = dict()
         for key, index in zip(
             self.sorted_keys_without_fixed_parameters, self._rescale_indexes
         ):
-            result[key] = self[key].rescale(
+            sample = self[key].rescale(
                 theta[index], **self.get_required_variables(key)
             )
-            self[key].least_recently_sampled = result[key]
+            self[key].least_recently_sampled = sample
+            self._store_rescaled(result, key, sample)
         return list(flatten([result[key] for key in keys]))
 
     def _update_rescale_keys(self, keys):
@@ -911,6 +943,7 @@ class ConditionalPriorDict(PriorDict):
 
     def _prepare_evaluation(self, keys, theta):
         self._check_resolved()
+        self._reset_joint_requests(keys)
         for key, value in zip(keys, theta):
             self[key].least_recently_sampled = value
 
-- 
2.43.0


From 10c8adfd34ada8d660473c178870dfab96a9753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:34 +0000
Subject: [PATCH 15/43] fix: HealPix prior densities and distances of several
 points

---
 bilby/gw/prior.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index edece21..80fd622 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -1462,7 +1462,7 @@ class HealPixMapPriorDist(BaseJointPriorDist):
                 self.update_distance(int(round(val)))
                 dist_samples[i] = self.distance_icdf(dist_samp[i])
         if self.distance:
-            sample = np.vstack([sample[:, 0], sample[:, 1], dist_samples])
+            sample = np.column_stack([sample[:, 0], sample[:, 1], dist_samples])
         return sample.reshape((-1, self.num_vars))
 
     def update_distance(self, pix_idx):
@@ -1562,7 +1562,7 @@ class HealPixMapPriorDist(BaseJointPriorDist):
         dist = self.distance_icdf(random.rng.uniform(0, 1))
         name = self.names[-1]
         if (dist > self.bounds[name][1]) | (dist < self.bounds[name][0]):
-            self.draw_distance(pix)
+            return self.draw_distance(pix)
         else:
             return dist
 
@@ -1639,9 +1639,9 @@ class HealPixMapPriorDist(BaseJointPriorDist):
         for i in range(samp.shape[0]):
             if not outbounds[i]:
                 if self.distance:
-                    phi, dec, dist = samp[0]
+                    phi, dec, dist = samp[i]
                 else:
-                    phi, dec = samp[0]
+                    phi, dec = samp[i]
                 theta = 0.5 * np.pi - dec
                 pixel = self.hp.ang2pix(self.nside, theta, phi)
                 lnprob[i] = np.log(self.prob[pixel] / self.pixel_area)
-- 
2.43.0


From d14d5ae72062cf9d88b30fa409d86fb54d4f8cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:31 +0000
Subject: [PATCH 16/43] fix: multivariate Gaussian draws with degenerate
 correlation matrices

---
 bilby/core/prior/joint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index b0ad4ee..f62fb1b 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -570,7 +570,7 @@ class MultivariateGaussianDist(BaseJointPriorDist):
 
         # get eigen values and vectors
         try:
-            evals, evecs = np.linalg.eig(self.corrcoefs[-1])
+            evals, evecs = np.linalg.eigh(self.corrcoefs[-1])
             self.eigvalues.append(evals)
             self.eigvectors.append(evecs)
         except Exception as e:
-- 
2.43.0


From 77b5cb0043c76527b98140962889baea8de1a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 17/43] fix: HealPix prior draws points inside the chosen pixel
 and bounds

---
 bilby/gw/prior.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index 80fd622..8406110 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -1568,7 +1568,7 @@ class HealPixMapPriorDist(BaseJointPriorDist):
 
     def draw_from_pixel(self, ra, dec, pix):
         """
-        Recursive function to uniformly draw ra, and dec values that are located in the given pixel
+        Function to uniformly draw ra, and dec values that are located in the given pixel
 
         Parameters
         ==========
@@ -1585,13 +1585,16 @@ class HealPixMapPriorDist(BaseJointPriorDist):
             this returns a tuple of ra, and dec sampled uniformly that are in the pixel given
         """
         if not self.check_in_pixel(ra, dec, pix):
-            self.draw_from_pixel(ra, dec, pix)
-        return np.array(
-            [
-                random.rng.uniform(ra - self.pixel_length, ra + self.pixel_length),
-                random.rng.uniform(dec - self.pixel_length, dec + self.pixel_length),
-            ]
-        )
+            raise ValueError(f"The centre of pixel {pix} is outside the bounds of the prior")
+        while True:
+            ra_dec = np.array(
+                [
+                    random.rng.uniform(ra - self.pixel_length, ra + self.pixel_length),
+                    random.rng.uniform(dec - self.pixel_length, dec + self.pixel_length),
+                ]
+            )
+            if self.check_in_pixel(*ra_dec, pix):
+                return ra_dec
 
     def check_in_pixel(self, ra, dec, pix):
         """
-- 
2.43.0


From 8e3a7b27e4f6b3bc28a809a8d07958926db29487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 18/43] fix: conditional priors keep their own class names and
 modules in text, JSON and pickles

---
 bilby/core/prior/conditional.py | 13 +++++++++----
 bilby/gw/prior.py               | 13 ++++++++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/bilby/core/prior/conditional.py b/bilby/core/prior/conditional.py
index 797cbd1..006240d 100644
--- a/bilby/core/prior/conditional.py
+++ b/bilby/core/prior/conditional.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from .base import Prior, PriorException
 from .interpolated import Interped
 from .analytical import DeltaFunction, PowerLaw, Uniform, LogUniform, \
@@ -56,8 +58,6 @@ def conditional_prior_factory(prior_class):
             self._required_variables = None
             self.condition_func = condition_func
             self._reference_params = reference_params
-            self.__class__.__name__ = 'Conditional{}'.format(prior_class.__name__)
-            self.__class__.__qualname__ = 'Conditional{}'.format(prior_class.__qualname__)
 
         def sample(self, size=None, **required_variables):
             """Draw a sample from the prior
@@ -226,15 +226,20 @@ def conditional_prior_factory(prior_class):
 
             """
             prior_name = self.__class__.__name__
+            prior_module = self.__class__.__module__
+            if "bilby.core.prior" not in prior_module:
+                prior_name = f"{prior_module}.{prior_name}"
             instantiation_dict = self.get_instantiation_dict()
             instantiation_dict["condition_func"] = ".".join([
                 instantiation_dict["condition_func"].__module__,
                 instantiation_dict["condition_func"].__name__
             ])
-            args = ', '.join(['{}={}'.format(key, repr(instantiation_dict[key]))
-                              for key in instantiation_dict])
+            args = ', '.join(['{}={}'.format(key, repr(value.tolist() if isinstance(value, np.ndarray) else value))
+                              for key, value in instantiation_dict.items()])
             return "{}({})".format(prior_name, args)
 
+    ConditionalPrior.__name__ = 'Conditional{}'.format(prior_class.__name__)
+    ConditionalPrior.__qualname__ = 'Conditional{}'.format(prior_class.__qualname__)
     return ConditionalPrior
 
 
diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index 8406110..508c42e 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -1334,9 +1334,16 @@ def secondary_mass_condition_function(reference_params, mass_1):
     return dict(minimum=reference_params['minimum'], maximum=mass_1)
 
 
-ConditionalCosmological = conditional_prior_factory(Cosmological)
-ConditionalUniformComovingVolume = conditional_prior_factory(UniformComovingVolume)
-ConditionalUniformSourceFrame = conditional_prior_factory(UniformSourceFrame)
+class ConditionalCosmological(conditional_prior_factory(Cosmological)):
+    pass
+
+
+class ConditionalUniformComovingVolume(conditional_prior_factory(UniformComovingVolume)):
+    pass
+
+
+class ConditionalUniformSourceFrame(conditional_prior_factory(UniformSourceFrame)):
+    pass
 
 
 class HealPixMapPriorDist(BaseJointPriorDist):
-- 
2.43.0


From a87052575b863b104f186c65dc502226d4c03a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 19/43] fix: prior text, file and JSON forms keep labels,
 arrays, bounds and joint distributions

---
 bilby/core/prior/base.py  | 88 +++++++++++++++++++++++++++------------
 bilby/core/prior/dict.py  | 59 ++++++++++++--------------
 bilby/core/prior/joint.py | 28 ++++++++-----
 3 files changed, 106 insertions(+), 69 deletions(-)

diff --git a/bilby/core/prior/base.py b/bilby/core/prior/base.py
index 0dcac2c..824dc57 100644
--- a/bilby/core/prior/base.py
+++ b/bilby/core/prior/base.py
@@ -222,7 +222,10 @@ class Prior(object):
         """
         prior_name = self.__class__.__name__
         prior_module = self.__class__.__module__
-        instantiation_dict = self.get_instantiation_dict()
+        instantiation_dict = {
+            key: value.tolist() if isinstance(value, np.ndarray) else value
+            for key, value in self.get_instantiation_dict().items()
+        }
         args = ', '.join([f'{key}={repr(instantiation_dict[key])}' for key in instantiation_dict])
         if "bilby.core.prior" in prior_module:
             return f"{prior_name}({args})"
@@ -338,7 +341,6 @@ class Prior(object):
     def _from_repr(cls, string):
         subclass_args = infer_args_from_method(cls.__init__)
 
-        string = string.replace(' ', '')
         kwargs = cls._split_repr(string)
         for key in kwargs:
             val = kwargs[key]
@@ -360,29 +362,12 @@ class Prior(object):
     @classmethod
     def _split_repr(cls, string):
         subclass_args = infer_args_from_method(cls.__init__)
-        args = string.split(',')
-        remove = list()
-        for ii, key in enumerate(args):
-            if '(' in key:
-                jj = ii
-                while ')' not in args[jj]:
-                    jj += 1
-                    args[ii] = ','.join([args[ii], args[jj]]).strip()
-                    remove.append(jj)
-        remove.reverse()
-        for ii in remove:
-            del args[ii]
         kwargs = dict()
-        for ii, arg in enumerate(args):
-            if '=' not in arg:
+        for ii, (key, val) in enumerate(split_arguments(string)):
+            if key is None:
                 logger.debug(
                     'Reading priors with non-keyword arguments is dangerous!')
                 key = subclass_args[ii]
-                val = arg
-            else:
-                split_arg = arg.split('=')
-                key = split_arg[0]
-                val = '='.join(split_arg[1:])
             kwargs[key] = val
         return kwargs
 
@@ -429,10 +414,14 @@ class Prior(object):
         """
         if val == 'None':
             val = None
-        elif re.sub(r'\'.*\'', '', val) in ['r', 'u']:
-            val = val[2:-1]
-        elif val.startswith("'") and val.endswith("'"):
-            val = val.strip("'")
+        elif re.fullmatch(r'''[ru]?('.*'|".*")''', val, flags=re.DOTALL):
+            raw = val.startswith('r')
+            val = val[2:-1] if val[0] in 'ru' else val[1:-1]
+            if not raw:
+                val = re.sub(r'''\\([\\'"])''', r'\1', val)
+        elif val.startswith(('array(', 'np.', 'numpy.')) and '(' in val:
+            namespace = dict(np=np, numpy=np, inf=np.inf, nan=np.nan, pi=np.pi, array=np.array)
+            val = eval(val, dict(), namespace)
         elif '(' in val and not val.startswith(("[", "{")):
             other_cls = val.split('(')[0]
             vals = '('.join(val.split('(')[1:])[:-1]
@@ -445,7 +434,7 @@ class Prior(object):
             val = other_cls.from_repr(vals)
         else:
             try:
-                val = eval(val, dict(), dict(np=np, inf=np.inf, pi=np.pi))
+                val = eval(val, dict(), dict(np=np, inf=np.inf, nan=np.nan, pi=np.pi))
             except NameError:
                 if "." in val:
                     module = '.'.join(val.split('.')[:-1])
@@ -461,6 +450,53 @@ class Prior(object):
         return val
 
 
+def split_arguments(string):
+    """
+    Split the textual arguments of a call, e.g., :code:`"a=1, b=f(2, 3), 'c, d'"`
+
+    Commas and equal signs within quotes or brackets do not separate arguments.
+
+    Parameters
+    ==========
+    string: str
+        The text between the parentheses of the call
+
+    Returns
+    =======
+    list: The pairs of keyword (None for non-keyword arguments) and value
+    """
+    args = [""]
+    quote, depth, skip = None, 0, False
+    for char in string:
+        if skip:
+            skip = False
+        elif quote is not None:
+            skip = char == "\\"
+            if char == quote:
+                quote = None
+        elif char in "'\"":
+            quote = char
+        elif char in "([{":
+            depth += 1
+        elif char in ")]}":
+            depth -= 1
+        elif char == "," and depth == 0:
+            args.append("")
+            continue
+        args[-1] += char
+    args = [arg.strip() for arg in args]
+    if args[-1] == "":
+        args.pop()
+    pairs = list()
+    for arg in args:
+        match = re.match(r"(\w+)\s*=\s*", arg)
+        if match is None:
+            pairs.append((None, arg))
+        else:
+            pairs.append((match.group(1), arg[match.end():]))
+    return pairs
+
+
 class Constraint(Prior):
 
     def __init__(self, minimum, maximum, name=None, latex_label=None,
diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 7ce9166..96d1282 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -1,6 +1,5 @@
 import json
 import os
-import re
 from importlib import import_module
 from io import open as ioopen
 
@@ -92,7 +91,7 @@ class PriorDict(dict):
         prior_file = os.path.join(outdir, "{}.prior".format(label))
         logger.debug("Writing priors to {}".format(prior_file))
         joint_dists = []
-        with open(prior_file, "w") as outfile:
+        with open(prior_file, "w", encoding="utf-8") as outfile:
             for key in self.keys():
                 if JointPrior in self[key].__class__.__mro__:
                     distname = "_".join(self[key].dist.names) + "_{}".format(
@@ -146,13 +145,13 @@ class PriorDict(dict):
 
         comments = ["#", "\n"]
         prior = dict()
-        with ioopen(filename, "r", encoding="unicode_escape") as f:
+        with ioopen(filename, "r", encoding="utf-8") as f:
             for line in f:
-                if line[0] in comments:
+                line = line.strip()
+                if line == "" or line[0] in comments:
                     continue
-                line.replace(" ", "")
                 elements = line.split("=")
-                key = elements[0].replace(" ", "")
+                key = elements[0].replace(" ", "").strip()
                 val = "=".join(elements[1:]).strip()
                 prior[key] = val
         self.from_dictionary(prior)
@@ -177,19 +176,6 @@ class PriorDict(dict):
             if key in prior_dict:
                 del prior_dict[key]
         obj = class_(prior_dict)
-        return obj
-
-    @classmethod
-    def from_json(cls, filename):
-        """Reads in a prior from a json file
-
-        Parameters
-        ==========
-        filename: str
-            Name of the file to be read in
-        """
-        with open(filename, "r") as ff:
-            obj = json.load(ff, object_hook=decode_bilby_json)
 
         # make sure priors containing JointDists are properly handled and point
         # to the same object when required
@@ -205,6 +191,18 @@ class PriorDict(dict):
 
         return obj
 
+    @classmethod
+    def from_json(cls, filename):
+        """Reads in a prior from a json file
+
+        Parameters
+        ==========
+        filename: str
+            Name of the file to be read in
+        """
+        with open(filename, "r") as ff:
+            return json.load(ff, object_hook=decode_bilby_json)
+
     def from_dictionary(self, dictionary):
         dictionary = dict(dictionary)
         jpdkwargs = {}
@@ -251,26 +249,23 @@ class PriorDict(dict):
                     if key not in jpdkwargs:
                         jpdkwargs[key] = cls.from_repr(args)
                 elif issubclass(cls, JointPrior):
-                    jpkwargs = {
-                        item[0].strip(): cls._parse_argument_string(item[1])
-                        for item in cls._split_repr(
-                            ", ".join(
-                                [arg for arg in args.split(",") if "dist=" not in arg]
-                            )
-                        ).items()
-                    }
-                    keymatch = re.match(r"dist=(?P<distkey>\S+),", args)
-                    if keymatch is None:
+                    jpkwargs = cls._split_repr(args)
+                    distkey = jpkwargs.pop("dist", None)
+                    if distkey is None:
                         raise ValueError(
                             "'dist' argument for JointPrior is not specified"
                         )
 
-                    if keymatch["distkey"] not in jpdkwargs:
+                    if distkey not in jpdkwargs:
                         raise ValueError(
-                            f"BaseJointPriorDist {keymatch['distkey']} must be defined before {cls.__name__}"
+                            f"BaseJointPriorDist {distkey} must be defined before {cls.__name__}"
                         )
 
-                    jpkwargs["dist"] = jpdkwargs[keymatch["distkey"]]
+                    jpkwargs = {
+                        key: cls._parse_argument_string(value)
+                        for key, value in jpkwargs.items()
+                    }
+                    jpkwargs["dist"] = jpdkwargs[distkey]
                     dictionary[key] = cls(**jpkwargs)
                 else:
                     try:
diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index f62fb1b..478bd9f 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -4,7 +4,7 @@ import numpy as np
 import scipy.stats
 from scipy.special import erfinv
 
-from .base import Prior, PriorException
+from .base import Prior, PriorException, split_arguments
 from ..utils import logger, infer_args_from_method, get_dict_with_properties
 from ..utils import random
 
@@ -22,8 +22,9 @@ class BaseJointPriorDist(object):
             A list of the parameter names in the JointPriorDist. The
             listed parameters must have the same order that they appear in
             the lists of statistical parameters that may be passed in child class
-        bounds: list (optional)
-            A list of bounds on each parameter. The defaults are for bounds at
+        bounds: list, dict (optional)
+            A list of bounds on each parameter (or a dictionary with the bounds
+            of each named parameter). The defaults are for bounds at
             +/- infinity.
         """
         self.distname = "joint_dist"
@@ -35,6 +36,8 @@ class BaseJointPriorDist(object):
         self.num_vars = len(self.names)
 
         # set the bounds for each parameter
+        if isinstance(bounds, dict):
+            bounds = [bounds[name] for name in self.names]
         if isinstance(bounds, list):
             if len(bounds) != len(self):
                 raise ValueError("Wrong number of parameter bounds")
@@ -131,6 +134,9 @@ class BaseJointPriorDist(object):
 
         """
         dist_name = self.__class__.__name__
+        dist_module = self.__class__.__module__
+        if "bilby.core.prior" not in dist_module:
+            dist_name = f"{dist_module}.{dist_name}"
         instantiation_dict = self.get_instantiation_dict()
         args = ", ".join(
             [
@@ -149,7 +155,6 @@ class BaseJointPriorDist(object):
     def _from_repr(cls, string):
         subclass_args = infer_args_from_method(cls.__init__)
 
-        string = string.replace(" ", "")
         kwargs = cls._split_repr(string)
         for key in kwargs:
             val = kwargs[key]
@@ -164,13 +169,14 @@ class BaseJointPriorDist(object):
 
     @classmethod
     def _split_repr(cls, string):
-        string = string.replace(",", ", ")
-        # see https://stackoverflow.com/a/72146415/1862861
-        args = re.findall(r"(\w+)=(\[.*?]|{.*?}|\S+)(?=\s*,\s*\w+=|\Z)", string)
-        kwargs = dict()
-        for key, arg in args:
-            kwargs[key.strip()] = arg
-        return kwargs
+        subclass_args = infer_args_from_method(cls.__init__)
+        string = string.strip()
+        if re.match(rf"([\w.]+\.)?{cls.__name__}\(", string):
+            string = string[string.index("(") + 1:-1]
+        return {
+            subclass_args[ii] if key is None else key: val
+            for ii, (key, val) in enumerate(split_arguments(string))
+        }
 
     def prob(self, samp):
         """
-- 
2.43.0


From b7723c2069c115a0afded302fd5d8f956be2cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 20/43] fix: time and frequency axes follow the latest settings
 and their sample counts

---
 bilby/core/series.py       |  6 ++++--
 bilby/core/utils/series.py | 15 +++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/bilby/core/series.py b/bilby/core/series.py
index ba1d0ff..0de75bc 100644
--- a/bilby/core/series.py
+++ b/bilby/core/series.py
@@ -50,10 +50,11 @@ class CoupledTimeAndFrequencySeries(object):
 
     @frequency_array.setter
     def frequency_array(self, frequency_array):
-        self._frequency_array = frequency_array
         self._sampling_frequency, self._duration = \
             utils.get_sampling_frequency_and_duration_from_frequency_array(frequency_array)
+        self._frequency_array = frequency_array
         self._frequency_array_updated = True
+        self._time_array_updated = False
 
     @property
     def time_array(self):
@@ -80,11 +81,12 @@ class CoupledTimeAndFrequencySeries(object):
 
     @time_array.setter
     def time_array(self, time_array):
-        self._time_array = time_array
         self._sampling_frequency, self._duration = \
             utils.get_sampling_frequency_and_duration_from_time_array(time_array)
+        self._time_array = time_array
         self._start_time = time_array[0]
         self._time_array_updated = True
+        self._frequency_array_updated = False
 
     @property
     def duration(self):
diff --git a/bilby/core/utils/series.py b/bilby/core/utils/series.py
index ccd5937..034fcfd 100644
--- a/bilby/core/utils/series.py
+++ b/bilby/core/utils/series.py
@@ -98,7 +98,7 @@ def create_time_series(sampling_frequency, duration, starting_time=0.):
 
     """
     _check_legal_sampling_frequency_and_duration(sampling_frequency, duration)
-    number_of_samples = int(duration * sampling_frequency)
+    number_of_samples = int(np.round(duration * sampling_frequency))
     return np.linspace(start=starting_time,
                        stop=duration + starting_time - 1 / sampling_frequency,
                        num=number_of_samples)
@@ -119,13 +119,20 @@ def create_frequency_series(sampling_frequency, duration):
     """
     _check_legal_sampling_frequency_and_duration(sampling_frequency, duration)
     number_of_samples = int(np.round(duration * sampling_frequency))
-    number_of_frequencies = int(np.round(number_of_samples / 2) + 1)
+    number_of_frequencies = number_of_samples // 2 + 1
 
     return np.linspace(start=0,
-                       stop=sampling_frequency / 2,
+                       stop=_maximum_frequency(sampling_frequency, number_of_samples),
                        num=number_of_frequencies)
 
 
+def _maximum_frequency(sampling_frequency, number_of_samples):
+    """ Largest frequency of the Fourier transform of a real series, the Nyquist frequency for even lengths """
+    if number_of_samples % 2 == 0:
+        return sampling_frequency / 2
+    return sampling_frequency / 2 * (number_of_samples - 1) / number_of_samples
+
+
 def _check_legal_sampling_frequency_and_duration(sampling_frequency, duration):
     """ By convention, sampling_frequency and duration have to multiply to an integer
 
@@ -210,7 +217,7 @@ def nfft(time_domain_strain, sampling_frequency):
     frequency_domain_strain /= sampling_frequency
 
     frequency_array = np.linspace(
-        0, sampling_frequency / 2, len(frequency_domain_strain))
+        0, _maximum_frequency(sampling_frequency, len(time_domain_strain)), len(frequency_domain_strain))
 
     return frequency_domain_strain, frequency_array
 
-- 
2.43.0


From 743977213881e4418c9efa83e4b7c8ef0c3d8a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:55 +0000
Subject: [PATCH 21/43] fix: waveform generator cache follows the axis and
 waveform arguments

---
 bilby/gw/waveform_generator.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/waveform_generator.py b/bilby/gw/waveform_generator.py
index f85e42a..3f4b219 100644
--- a/bilby/gw/waveform_generator.py
+++ b/bilby/gw/waveform_generator.py
@@ -169,8 +169,12 @@ class WaveformGenerator(object):
                           transformed_model_data_points, parameters):
         if parameters is not None:
             self.parameters = parameters
+        else:
+            self.parameters.update(self.waveform_arguments)
         if self.parameters == self._cache['parameters'] and self._cache['model'] == model and \
-                self._cache['transformed_model'] == transformed_model:
+                self._cache['transformed_model'] == transformed_model and \
+                self._cache['model_data_points'] is model_data_points and \
+                self._cache['transformed_model_data_points'] is transformed_model_data_points:
             return self._cache['waveform']
         if model is not None:
             model_strain = self._strain_from_model(model_data_points, model)
@@ -183,6 +187,8 @@ class WaveformGenerator(object):
         self._cache['parameters'] = self.parameters.copy()
         self._cache['model'] = model
         self._cache['transformed_model'] = transformed_model
+        self._cache['model_data_points'] = model_data_points
+        self._cache['transformed_model_data_points'] = transformed_model_data_points
         return model_strain
 
     def _strain_from_model(self, model_data_points, model):
@@ -192,7 +198,10 @@ class WaveformGenerator(object):
         transformed_model_strain = self._strain_from_model(transformed_model_data_points, transformed_model)
 
         if isinstance(transformed_model_strain, np.ndarray):
-            return transformation_function(transformed_model_strain, self.sampling_frequency)
+            model_strain = transformation_function(transformed_model_strain, self.sampling_frequency)
+            if isinstance(model_strain, tuple):
+                model_strain, _ = model_strain
+            return model_strain
 
         model_strain = dict()
         for key in transformed_model_strain:
-- 
2.43.0


From f3f342f00dea77ea19241cbf15e15333005d081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:00 +0000
Subject: [PATCH 22/43] fix: strain data refer to the data last set, in both
 domains

---
 bilby/gw/detector/interferometer.py |   6 +-
 bilby/gw/detector/strain_data.py    | 103 +++++++++++++++++++++++-----
 2 files changed, 88 insertions(+), 21 deletions(-)

diff --git a/bilby/gw/detector/interferometer.py b/bilby/gw/detector/interferometer.py
index ac0c148..94f704e 100644
--- a/bilby/gw/detector/interferometer.py
+++ b/bilby/gw/detector/interferometer.py
@@ -483,7 +483,7 @@ class Interferometer(object):
             np.sqrt(self.optimal_snr_squared(signal=signal_ifo)).real)
         self.meta_data['matched_filter_SNR'] = (
             self.matched_filter_snr(signal=signal_ifo))
-        self.meta_data['parameters'] = parameters
+        self.meta_data['parameters'] = dict(parameters)
 
         logger.info("Injected signal in {}:".format(self.name))
         logger.info("  optimal SNR = {:.2f}".format(self.meta_data['optimal_SNR']))
@@ -898,7 +898,9 @@ class Interferometer(object):
         format="pickle", extra=".. versionadded:: 1.1.0"
     ))
     def to_pickle(self, outdir="outdir", label=None):
-        utils.check_directory_exists_and_if_not_mkdir('outdir')
+        utils.check_directory_exists_and_if_not_mkdir(outdir)
+        if label is None:
+            label = self.name
         filename = self._filename_from_outdir_label_extension(outdir, label, extension="pkl")
         safe_file_dump(self, filename, "dill")
 
diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 06e0c01..c103d61 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -36,20 +36,21 @@ class InterferometerStrainData(object):
 
         """
 
-        self.minimum_frequency = minimum_frequency
-        self.maximum_frequency = maximum_frequency
-        self.notch_list = notch_list
-        self.roll_off = roll_off
-        self.window_factor = 1
-
         self._times_and_frequencies = CoupledTimeAndFrequencySeries()
-
-        self._frequency_mask_updated = False
         self._frequency_mask = None
+        self._frequency_mask_axis = None
         self._frequency_domain_strain = None
         self._time_domain_strain = None
+        # 'time' ('frequency') if the strain in that domain was calculated from the other one
+        self._derived_domain = None
         self._channel = None
 
+        self.minimum_frequency = minimum_frequency
+        self.maximum_frequency = maximum_frequency
+        self.notch_list = notch_list
+        self.roll_off = roll_off
+        self.window_factor = 1
+
     def __eq__(self, other):
         if self.minimum_frequency == other.minimum_frequency \
                 and self.maximum_frequency == other.maximum_frequency \
@@ -95,20 +96,20 @@ class InterferometerStrainData(object):
     @minimum_frequency.setter
     def minimum_frequency(self, minimum_frequency):
         self._minimum_frequency = minimum_frequency
-        self._frequency_mask_updated = False
+        self._reset_frequency_mask()
 
     @property
     def maximum_frequency(self):
         """ Force the maximum frequency be less than the Nyquist frequency """
         if self.sampling_frequency is not None:
             if 2 * self._maximum_frequency > self.sampling_frequency:
-                self._maximum_frequency = self.sampling_frequency / 2.
+                return self.sampling_frequency / 2.
         return self._maximum_frequency
 
     @maximum_frequency.setter
     def maximum_frequency(self, maximum_frequency):
         self._maximum_frequency = maximum_frequency
-        self._frequency_mask_updated = False
+        self._reset_frequency_mask()
 
     @property
     def notch_list(self):
@@ -133,7 +134,7 @@ class InterferometerStrainData(object):
             self._notch_list = notch_list
         else:
             raise ValueError("notch_list {} not understood".format(notch_list))
-        self._frequency_mask_updated = False
+        self._reset_frequency_mask()
 
     @property
     def frequency_mask(self):
@@ -144,21 +145,69 @@ class InterferometerStrainData(object):
         mask: np.ndarray
             An array of boolean values
         """
-        if not self._frequency_mask_updated:
-            frequency_array = self._times_and_frequencies.frequency_array
+        frequency_array = self._times_and_frequencies.frequency_array
+        if (
+            not self._frequency_mask_updated
+            or np.shape(self._frequency_mask) != np.shape(frequency_array)
+            or (self._frequency_mask_axis is not None and self._frequency_mask_axis is not frequency_array)
+        ):
             mask = ((frequency_array >= self.minimum_frequency) &
                     (frequency_array <= self.maximum_frequency))
             for notch in self.notch_list:
                 mask[notch.get_idxs(frequency_array)] = False
             self._frequency_mask = mask
+            self._frequency_mask_axis = frequency_array
             self._frequency_mask_updated = True
         return self._frequency_mask
 
     @frequency_mask.setter
     def frequency_mask(self, mask):
+        self._reset_frequency_mask()
         self._frequency_mask = mask
+        self._frequency_mask_axis = None
         self._frequency_mask_updated = True
 
+    def _reset_frequency_mask(self):
+        self._frequency_mask_updated = False
+        self._reset_derived_strain('time')
+
+    def _reset_derived_strain(self, domain):
+        """ Forget the strain in the domain if it was calculated from the other domain """
+        if self._derived_domain == domain:
+            setattr(self, '_{}_domain_strain'.format(domain), None)
+            self._derived_domain = None
+
+    def _reset_data(self):
+        """ Forget everything that belongs to the data that are about to be replaced """
+        self._time_domain_strain = None
+        self._frequency_domain_strain = None
+        self._derived_domain = None
+        self._frequency_mask_updated = False
+        self._channel = None
+        self.window_factor = 1
+
+    @property
+    def roll_off(self):
+        """ The rise time of the window applied to time domain data. """
+        return self._roll_off
+
+    @roll_off.setter
+    def roll_off(self, roll_off):
+        self._roll_off = roll_off
+        self._reset_derived_strain('frequency')
+
+    @property
+    def window_factor(self):
+        """ The mean squared window applied to the frequency domain strain """
+        if self._time_domain_strain is not None and self._frequency_domain_strain is None:
+            # these data will be windowed when they are transformed
+            self.time_domain_window()
+        return self._window_factor
+
+    @window_factor.setter
+    def window_factor(self, window_factor):
+        self._window_factor = window_factor
+
     @property
     def alpha(self):
         return 2 * self.roll_off / self.duration
@@ -200,6 +249,7 @@ class InterferometerStrainData(object):
         elif self._frequency_domain_strain is not None:
             self._time_domain_strain = utils.infft(
                 self.frequency_domain_strain, self.sampling_frequency)
+            self._derived_domain = 'time'
             return self._time_domain_strain
 
         else:
@@ -222,8 +272,11 @@ class InterferometerStrainData(object):
                 self.alpha, self.roll_off))
             # self.low_pass_filter()
             window = self.time_domain_window()
-            self._frequency_domain_strain, self.frequency_array = utils.nfft(
+            self._frequency_domain_strain, frequency_array = utils.nfft(
                 self._time_domain_strain * window, self.sampling_frequency)
+            self._derived_domain = 'frequency'
+            if len(frequency_array) != len(self.frequency_array):
+                self.frequency_array = frequency_array
             return self._frequency_domain_strain * self.frequency_mask
         else:
             raise ValueError("frequency domain strain data not yet set")
@@ -232,8 +285,11 @@ class InterferometerStrainData(object):
     def frequency_domain_strain(self, frequency_domain_strain):
         if not len(self.frequency_array) == len(frequency_domain_strain):
             raise ValueError("The frequency_array and the set strain have different lengths")
+        window_factor = self.window_factor
         self._frequency_domain_strain = frequency_domain_strain
         self._time_domain_strain = None
+        self._derived_domain = None
+        self.window_factor = window_factor
 
     def to_gwpy_timeseries(self):
         """
@@ -358,6 +414,8 @@ class InterferometerStrainData(object):
         strain = TimeSeries(self.time_domain_strain, sample_rate=self.sampling_frequency)
         strain = strain.filter(bp, filtfilt=True)
         self._time_domain_strain = strain.value
+        self._frequency_domain_strain = None
+        self._derived_domain = None
 
     def create_power_spectral_density(
             self, fft_length, overlap=0, name='unknown', outdir=None,
@@ -395,7 +453,7 @@ class InterferometerStrainData(object):
 
         if analysis_segment_start_time is not None:
             analysis_segment_end_time = analysis_segment_start_time + fft_length
-            inside = (analysis_segment_start_time > self.time_array[0] +
+            inside = (analysis_segment_start_time > self.time_array[0] and
                       analysis_segment_end_time < self.time_array[-1])
             if inside:
                 logger.info("Removing analysis segment data from the PSD data")
@@ -446,6 +504,7 @@ class InterferometerStrainData(object):
                     "an array")
             pass
         elif array is not None:
+            self._times_and_frequencies = CoupledTimeAndFrequencySeries()
             if domain == 'time':
                 self.time_array = array
             elif domain == 'frequency':
@@ -486,6 +545,7 @@ class InterferometerStrainData(object):
             given.
 
         """
+        previous = self._times_and_frequencies
         self._infer_time_domain_dependence(start_time=start_time,
                                            sampling_frequency=sampling_frequency,
                                            duration=duration,
@@ -493,9 +553,10 @@ class InterferometerStrainData(object):
 
         logger.debug('Setting data using provided time_domain_strain')
         if np.shape(time_domain_strain) == np.shape(self.time_array):
+            self._reset_data()
             self._time_domain_strain = time_domain_strain
-            self._frequency_domain_strain = None
         else:
+            self._times_and_frequencies = previous
             raise ValueError("Data times do not match time array")
 
     def set_from_gwpy_timeseries(self, time_series):
@@ -519,8 +580,8 @@ class InterferometerStrainData(object):
             CoupledTimeAndFrequencySeries(duration=time_series.duration.value,
                                           sampling_frequency=time_series.sample_rate.value,
                                           start_time=time_series.epoch.value)
+        self._reset_data()
         self._time_domain_strain = time_series.value
-        self._frequency_domain_strain = None
         self._channel = time_series.channel
 
     @property
@@ -594,6 +655,7 @@ class InterferometerStrainData(object):
 
         """
 
+        previous = self._times_and_frequencies
         self._infer_frequency_domain_dependence(start_time=start_time,
                                                 sampling_frequency=sampling_frequency,
                                                 duration=duration,
@@ -601,9 +663,10 @@ class InterferometerStrainData(object):
 
         logger.debug('Setting data using provided frequency_domain_strain')
         if np.shape(frequency_domain_strain) == np.shape(self.frequency_array):
+            self._reset_data()
             self._frequency_domain_strain = frequency_domain_strain
-            self.window_factor = 1
         else:
+            self._times_and_frequencies = previous
             raise ValueError("Data frequencies do not match frequency_array")
 
     def set_from_power_spectral_density(
@@ -635,6 +698,7 @@ class InterferometerStrainData(object):
                 self.sampling_frequency, self.duration)
 
         if np.array_equal(frequency_array, self.frequency_array):
+            self._reset_data()
             self._frequency_domain_strain = frequency_domain_strain
         else:
             raise ValueError("Data frequencies do not match frequency_array")
@@ -657,6 +721,7 @@ class InterferometerStrainData(object):
                                                                     sampling_frequency=sampling_frequency,
                                                                     start_time=start_time)
         logger.debug('Setting zero noise data')
+        self._reset_data()
         self._frequency_domain_strain = np.zeros_like(self.frequency_array,
                                                       dtype=complex)
 
-- 
2.43.0


From b796b67bbd333abe4a1393e7b24c62dbc07b3648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:52 +0000
Subject: [PATCH 23/43] fix: detector networks keep only compatible detectors

---
 bilby/gw/detector/networks.py | 63 ++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/bilby/gw/detector/networks.py b/bilby/gw/detector/networks.py
index 7ff6f44..d259a0a 100644
--- a/bilby/gw/detector/networks.py
+++ b/bilby/gw/detector/networks.py
@@ -27,18 +27,27 @@ class InterferometerList(list):
         super(InterferometerList, self).__init__()
         if isinstance(interferometers, str):
             raise TypeError("Input must not be a string")
+        self.extend([
+            get_empty_interferometer(ifo) if isinstance(ifo, str) else ifo
+            for ifo in interferometers
+        ])
+
+    @staticmethod
+    def _individual_interferometers(interferometers):
+        """Flatten networks and verify that there is nothing but interferometers"""
+        flat = list()
         for ifo in interferometers:
-            if isinstance(ifo, str):
-                ifo = get_empty_interferometer(ifo)
-            if not isinstance(ifo, (Interferometer, TriangularInterferometer)):
+            if isinstance(ifo, InterferometerList):
+                flat.extend(ifo)
+            elif isinstance(ifo, Interferometer):
+                flat.append(ifo)
+            else:
                 raise TypeError(
                     "Input list of interferometers are not all Interferometer objects"
                 )
-            else:
-                self.append(ifo)
-        self._check_interferometers()
+        return flat
 
-    def _check_interferometers(self):
+    def _check_interferometers(self, interferometers=None):
         """Verify IFOs 'duration', 'start_time', 'sampling_frequency' are the same.
 
         If the above attributes are not the same, then the attributes are checked to
@@ -46,11 +55,13 @@ class InterferometerList(list):
 
         If both checks fail, then a ValueError is raised.
         """
+        if interferometers is None:
+            interferometers = self
         consistent_attributes = ["duration", "start_time", "sampling_frequency"]
         for attribute in consistent_attributes:
             x = [
                 getattr(interferometer.strain_data, attribute)
-                for interferometer in self
+                for interferometer in interferometers
             ]
             try:
                 if not all(y == x[0] for y in x):
@@ -60,7 +71,7 @@ class InterferometerList(list):
                             attribute=attribute,
                             value=getattr(ifo.strain_data, attribute),
                         )
-                        for ifo in self
+                        for ifo in interferometers
                     ]
                     raise ValueError(
                         "The {} of all interferometers are not the same: {}".format(
@@ -68,7 +79,7 @@ class InterferometerList(list):
                         )
                     )
             except ValueError as e:
-                if not all(math.isclose(y, x[0], abs_tol=1e-5) for y in x):
+                if None in x or not all(math.isclose(y, x[0], rel_tol=0, abs_tol=1e-5) for y in x):
                     raise ValueError(e)
                 else:
                     logger.warning(e)
@@ -172,6 +183,11 @@ class InterferometerList(list):
                     "injection_polarizations."
                 )
 
+        if raise_error:
+            for interferometer in self:
+                # do not inject in any detector if one of them can not hold the signal
+                interferometer.check_signal_duration(parameters, raise_error)
+
         all_injection_polarizations = list()
         for interferometer in self:
             all_injection_polarizations.append(
@@ -225,19 +241,28 @@ class InterferometerList(list):
         return self[0].strain_data.frequency_array
 
     def append(self, interferometer):
-        if isinstance(interferometer, InterferometerList):
-            super(InterferometerList, self).extend(interferometer)
-        else:
-            super(InterferometerList, self).append(interferometer)
-        self._check_interferometers()
+        self.extend([interferometer])
 
     def extend(self, interferometers):
-        super(InterferometerList, self).extend(interferometers)
-        self._check_interferometers()
+        self[len(self):] = interferometers
 
     def insert(self, index, interferometer):
-        super(InterferometerList, self).insert(index, interferometer)
-        self._check_interferometers()
+        self[index:index] = [interferometer]
+
+    def __iadd__(self, interferometers):
+        self.extend(interferometers)
+        return self
+
+    def __setitem__(self, index, interferometer):
+        # the resulting network is verified before this one is changed
+        if isinstance(index, slice):
+            interferometer = self._individual_interferometers(interferometer)
+        elif not isinstance(interferometer, Interferometer):
+            raise TypeError("Can not set an element of the network to {}".format(type(interferometer)))
+        new = list(self)
+        new[index] = interferometer
+        self._check_interferometers(new)
+        super(InterferometerList, self).__setitem__(index, interferometer)
 
     @property
     def meta_data(self):
-- 
2.43.0


From 9e3f42ffa615f35341eadeedc0e6b2acea3af062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:30 +0000
Subject: [PATCH 24/43] fix: noise spectra refer to the specification last
 given

---
 bilby/gw/detector/psd.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/bilby/gw/detector/psd.py b/bilby/gw/detector/psd.py
index a3948f9..e56915f 100644
--- a/bilby/gw/detector/psd.py
+++ b/bilby/gw/detector/psd.py
@@ -48,19 +48,25 @@ class PowerSpectralDensity(object):
         """
         self._cache = dict(
             frequency_array=np.array([]), psd_array=None, asd_array=None)
+        self.__psd_array = None
+        self.__asd_array = None
+        self._psd_file = None
+        self._asd_file = None
         self.frequency_array = np.array(frequency_array)
         if psd_array is not None:
             self.psd_array = psd_array
         if asd_array is not None:
             self.asd_array = asd_array
-        self.psd_file = psd_file
-        self.asd_file = asd_file
+        if psd_file is not None:
+            self.psd_file = psd_file
+        if asd_file is not None:
+            self.asd_file = asd_file
 
     def _update_cache(self, frequency_array):
         psd_array = self.power_spectral_density_interpolated(frequency_array)
         self._cache['psd_array'] = psd_array
         self._cache['asd_array'] = psd_array**0.5
-        self._cache['frequency_array'] = frequency_array
+        self._cache['frequency_array'] = np.array(frequency_array)
 
     def __eq__(self, other):
         if self.psd_file == other.psd_file \
@@ -203,6 +209,17 @@ class PowerSpectralDensity(object):
                     "zero detuning, high power.")
         return PowerSpectralDensity.from_power_spectral_density_file(psd_file='aLIGO_ZERO_DET_high_P_psd.txt')
 
+    @property
+    def frequency_array(self):
+        """ Frequencies at which the spectral density is given """
+        return self.__frequency_array
+
+    @frequency_array.setter
+    def frequency_array(self, frequency_array):
+        self.__frequency_array = np.array(frequency_array)
+        if self.__psd_array is not None and len(self.__psd_array) == np.size(self.__frequency_array):
+            self.__interpolate_power_spectral_density()
+
     @property
     def psd_array(self):
         return self.__psd_array
@@ -211,7 +228,8 @@ class PowerSpectralDensity(object):
     def psd_array(self, psd_array):
         self.__check_frequency_array_matches_density_array(psd_array)
         self.__psd_array = np.array(psd_array)
-        self.__asd_array = psd_array ** 0.5
+        self.__asd_array = self.__psd_array ** 0.5
+        self._psd_file = self._asd_file = None
         self.__interpolate_power_spectral_density()
 
     @property
@@ -222,7 +240,8 @@ class PowerSpectralDensity(object):
     def asd_array(self, asd_array):
         self.__check_frequency_array_matches_density_array(asd_array)
         self.__asd_array = np.array(asd_array)
-        self.__psd_array = asd_array ** 2
+        self.__psd_array = self.__asd_array ** 2
+        self._psd_file = self._asd_file = None
         self.__interpolate_power_spectral_density()
 
     def __check_frequency_array_matches_density_array(self, density_array):
@@ -265,6 +284,7 @@ class PowerSpectralDensity(object):
         self._asd_file = asd_file
         if asd_file is not None:
             self.__import_amplitude_spectral_density()
+            self._asd_file = asd_file
             self.__check_file_was_asd_file()
 
     def __check_file_was_asd_file(self):
@@ -284,6 +304,7 @@ class PowerSpectralDensity(object):
         self._psd_file = psd_file
         if psd_file is not None:
             self.__import_power_spectral_density()
+            self._psd_file = psd_file
             self.__check_file_was_psd_file()
 
     def __check_file_was_psd_file(self):
@@ -359,8 +380,9 @@ class PowerSpectralDensity(object):
 
         """
         white_noise, frequencies = utils.create_white_noise(sampling_frequency, duration)
+        psd_array = self.__power_spectral_density_interpolated(frequencies)
         with np.errstate(invalid="ignore"):
-            frequency_domain_strain = self.__power_spectral_density_interpolated(frequencies) ** 0.5 * white_noise
-        out_of_bounds = (frequencies < min(self.frequency_array)) | (frequencies > max(self.frequency_array))
+            frequency_domain_strain = psd_array ** 0.5 * white_noise
+        out_of_bounds = np.isinf(psd_array)
         frequency_domain_strain[out_of_bounds] = 0 * (1 + 1j)
         return frequency_domain_strain, frequencies
-- 
2.43.0


From f76e441be934f3cec04c1b1fd5c28b4c7063c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:31 +0000
Subject: [PATCH 25/43] fix: place the vertices of a triangular detector at the
 ends of its arms

---
 bilby/gw/detector/networks.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bilby/gw/detector/networks.py b/bilby/gw/detector/networks.py
index d259a0a..0980690 100644
--- a/bilby/gw/detector/networks.py
+++ b/bilby/gw/detector/networks.py
@@ -365,13 +365,11 @@ class TriangularInterferometer(InterferometerList):
                 )
             )
 
-            xarm_azimuth += 240
-            yarm_azimuth += 240
-
+            # the next vertex is at the far end of the current y arm
             latitude += (
                 np.arctan(
                     length
-                    * np.sin(xarm_azimuth * np.pi / 180)
+                    * np.sin(yarm_azimuth * np.pi / 180)
                     * 1e3
                     / utils.radius_of_earth
                 )
@@ -381,7 +379,7 @@ class TriangularInterferometer(InterferometerList):
             longitude += (
                 np.arctan(
                     length
-                    * np.cos(xarm_azimuth * np.pi / 180)
+                    * np.cos(yarm_azimuth * np.pi / 180)
                     * 1e3
                     / utils.radius_of_earth
                 )
@@ -389,6 +387,9 @@ class TriangularInterferometer(InterferometerList):
                 / np.pi
             )
 
+            xarm_azimuth += 240
+            yarm_azimuth += 240
+
 
 def get_empty_interferometer(name):
     """
-- 
2.43.0


From 554a0b599e439f27c90fe024f3191532a9b174d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:14 +0000
Subject: [PATCH 26/43] fix: keep the chain's state, burn-in cache and columns
 in step with what is recorded

---
 bilby/bilby_mcmc/chain.py | 45 ++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/bilby/bilby_mcmc/chain.py b/bilby/bilby_mcmc/chain.py
index 0c19134..9c9cf84 100644
--- a/bilby/bilby_mcmc/chain.py
+++ b/bilby/bilby_mcmc/chain.py
@@ -95,7 +95,7 @@ class Chain(object):
 
     @current_sample.setter
     def current_sample(self, current_sample):
-        self._current_sample = current_sample
+        self._current_sample = current_sample.copy()
 
     def append(self, sample):
         self.position += 1
@@ -106,27 +106,38 @@ class Chain(object):
 
         # Store the current sample and append to the array
         self.current_sample = sample
-        self._chain_array[self.position] = sample.list
+        self._chain_array[self.position] = self._row(sample)
 
         # Update the maximum log_likelihood
         if sample[LOGLKEY] > self.max_log_likelihood:
             self.max_log_likelihood = sample[LOGLKEY]
 
-    def __getitem__(self, index):
+    def _row(self, sample):
+        return [sample[key] for key in self.keys]
+
+    def _check_index(self, index):
         if index < 0:
             index = index + self.position + 1
 
-        if index <= self.position:
-            values = self._chain_array[index]
-            return Sample({k: v for k, v in zip(self.keys, values)})
+        if 0 <= index <= self.position:
+            return index
         else:
             raise SamplerError(f"Requested index {index} out of bounds")
 
+    def __getitem__(self, index):
+        values = self._chain_array[self._check_index(index)]
+        return Sample({k: v for k, v in zip(self.keys, values)})
+
     def __setitem__(self, index, sample):
-        if index < 0:
-            index = index + self.position + 1
+        index = self._check_index(index)
+        self._chain_array[index] = self._row(sample)
+        self._last_minimum_index_settings = None
 
-        self._chain_array[index] = sample.list
+        # Keep the state from which the chain continues and the maximum up to date
+        if index == self.position:
+            self.current_sample = sample
+        if sample[LOGLKEY] > self.max_log_likelihood:
+            self.max_log_likelihood = sample[LOGLKEY]
 
     def key_to_idx(self, key):
         return self.keys.index(key)
@@ -169,6 +180,16 @@ class Chain(object):
 
         # Return cached minimum index
         last_minimum_index = self._last_minimum_index
+        settings = (
+            self.fixed_discard,
+            self.burn_in_nact,
+            self.minimum_index_proposal,
+            self.minimum_index_adapt,
+        )
+        if settings != getattr(self, "_last_minimum_index_settings", None):
+            last_minimum_index = (-1,) + tuple(last_minimum_index[1:])
+            self._last_minimum_index = last_minimum_index
+            self._last_minimum_index_settings = settings
         if position == last_minimum_index[0]:
             return int(last_minimum_index[1])
 
@@ -347,7 +368,7 @@ class Chain(object):
         n_independent_samples = nuseable_steps / self.tau
         nsamples = int(n_independent_samples / self.thin_by_nact)
         if nuseable_steps >= nsamples:
-            return nsamples
+            return max(0, nsamples)
         else:
             return 0
 
@@ -493,6 +514,10 @@ class Sample(object):
         self.sample_dict[key] = value
         if key not in self.keys:
             self.keys = list(self.sample_dict.keys())
+            self.parameter_keys = [
+                k for k in self.keys if k not in [LOGPKEY, LOGLKEY]
+            ]
+            self.ndim = len(self.parameter_keys)
 
     @property
     def list(self):
-- 
2.43.0


From 573aa6c6c6bc62b02b0cd6f22e7f96362e0e844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:04 +0000
Subject: [PATCH 27/43] fix: conversions use the values given and stay finite
 at zero spin, equal masses and extreme mass ratio

---
 bilby/gw/conversion.py | 72 +++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 29 deletions(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index fe1688f..6273546 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -178,6 +178,16 @@ def transform_precessing_spins(*args):
     return lalsim_SimInspiralTransformPrecessingNewInitialConditions(*args)
 
 
+def _cos_tilt_from_chi(chi, a):
+    """
+    Cosine of the tilt of a spin with the given aligned component and magnitude,
+    set to one where the spin is zero.
+    """
+    with np.errstate(invalid="ignore", divide="ignore"):
+        cos_tilt = np.true_divide(chi, a)
+    return np.where((np.asarray(chi) == 0) & (np.asarray(a) == 0), 1.0, cos_tilt)[()]
+
+
 def convert_to_lal_binary_black_hole_parameters(parameters):
     """
     Convert parameters we have into parameters we need.
@@ -221,7 +231,7 @@ def convert_to_lal_binary_black_hole_parameters(parameters):
             if 'redshift' not in converted_parameters.keys():
                 converted_parameters['redshift'] =\
                     luminosity_distance_to_redshift(
-                        parameters['luminosity_distance'])
+                        converted_parameters['luminosity_distance'])
             converted_parameters[key[:-7]] = converted_parameters[key] * (
                 1 + converted_parameters['redshift'])
 
@@ -236,9 +246,8 @@ def convert_to_lal_binary_black_hole_parameters(parameters):
                     converted_parameters[f"chi_{idx}"] ** 2
                     + converted_parameters[f"chi_{idx}_in_plane"] ** 2
                 ) ** 0.5
-                converted_parameters[f"cos_tilt_{idx}"] = (
-                    converted_parameters[f"chi_{idx}"]
-                    / converted_parameters[f"a_{idx}"]
+                converted_parameters[f"cos_tilt_{idx}"] = _cos_tilt_from_chi(
+                    converted_parameters[key], converted_parameters[f"a_{idx}"]
                 )
             elif "a_{}".format(idx) not in original_keys:
                 converted_parameters['a_{}'.format(idx)] = abs(
@@ -246,18 +255,9 @@ def convert_to_lal_binary_black_hole_parameters(parameters):
                 converted_parameters['cos_tilt_{}'.format(idx)] = \
                     np.sign(converted_parameters[key])
             else:
-                with np.errstate(invalid="raise"):
-                    try:
-                        converted_parameters[f"cos_tilt_{idx}"] = (
-                            converted_parameters[key] / converted_parameters[f"a_{idx}"]
-                        )
-                    except (FloatingPointError, ZeroDivisionError):
-                        logger.debug(
-                            "Error in conversion to spherical spin tilt. "
-                            "This is often due to the spin parameters being zero. "
-                            f"Setting cos_tilt_{idx} = 1."
-                        )
-                        converted_parameters[f"cos_tilt_{idx}"] = 1.0
+                converted_parameters[f"cos_tilt_{idx}"] = _cos_tilt_from_chi(
+                    converted_parameters[key], converted_parameters[f"a_{idx}"]
+                )
 
     for key in ["phi_jl", "phi_12"]:
         if key not in converted_parameters:
@@ -324,7 +324,9 @@ def convert_to_lal_binary_neutron_star_parameters(parameters):
         added_keys = added_keys + ['lambda_1', 'lambda_2']
         return converted_parameters, added_keys
 
-    if 'delta_lambda_tilde' in converted_parameters.keys():
+    if converted_parameters.get('lambda_1') is not None and converted_parameters.get('lambda_2') is not None:
+        pass  # the component deformabilities are given
+    elif 'delta_lambda_tilde' in converted_parameters.keys():
         converted_parameters['lambda_1'], converted_parameters['lambda_2'] =\
             lambda_tilde_delta_lambda_tilde_to_lambda_1_lambda_2(
                 converted_parameters['lambda_tilde'],
@@ -560,18 +562,22 @@ def convert_to_lal_binary_neutron_star_parameters(parameters):
                 lambda_symmetric_lambda_antisymmetric_to_lambda_1_lambda_2(
                     converted_parameters['lambda_symmetric'],
                     converted_parameters['lambda_antisymmetric'])
-        elif 'mass_ratio' in converted_parameters.keys():
+        elif 'mass_ratio' in converted_parameters.keys() or 'mass_1' in converted_parameters.keys():
+            mass_ratio = converted_parameters.get('mass_ratio')
+            if mass_ratio is None:
+                mass_ratio = component_masses_to_mass_ratio(
+                    converted_parameters['mass_1'], converted_parameters['mass_2'])
             if 'binary_love_uniform' in converted_parameters.keys():
                 converted_parameters['lambda_1'], converted_parameters['lambda_2'] =\
                     binary_love_lambda_symmetric_to_lambda_1_lambda_2_manual_marginalisation(
                         converted_parameters['binary_love_uniform'],
                         converted_parameters['lambda_symmetric'],
-                        converted_parameters['mass_ratio'])
+                        mass_ratio)
             else:
                 converted_parameters['lambda_1'], converted_parameters['lambda_2'] =\
                     binary_love_lambda_symmetric_to_lambda_1_lambda_2_automatic_marginalisation(
                         converted_parameters['lambda_symmetric'],
-                        converted_parameters['mass_ratio'])
+                        mass_ratio)
 
     added_keys = [key for key in converted_parameters.keys()
                   if key not in original_keys]
@@ -911,7 +917,10 @@ def symmetric_mass_ratio_to_mass_ratio(symmetric_mass_ratio):
     """
 
     temp = (1 / symmetric_mass_ratio / 2 - 1)
-    return temp - (temp ** 2 - 1) ** 0.5
+    square = temp ** 2 - 1
+    # equal masses, up to rounding
+    square = square * (abs(square) > 1e-14)
+    return temp - square ** 0.5
 
 
 def chirp_mass_and_total_mass_to_symmetric_mass_ratio(chirp_mass, total_mass):
@@ -1086,11 +1095,14 @@ def mass_1_and_chirp_mass_to_mass_ratio(mass_1, chirp_mass):
         Mass ratio of the binary
     """
     temp = (chirp_mass / mass_1) ** 5
-    mass_ratio = (2 / 3 / (3 ** 0.5 * (27 * temp ** 2 - 4 * temp ** 3) ** 0.5 +
-                           9 * temp)) ** (1 / 3) * temp + \
-                 ((3 ** 0.5 * (27 * temp ** 2 - 4 * temp ** 3) ** 0.5 +
-                   9 * temp) / (2 * 3 ** 2)) ** (1 / 3)
-    return mass_ratio
+    # mass_ratio is the positive root of q^3 = temp * (1 + q), which is the only
+    # real root unless temp > 27 / 4
+    discriminant = np.sqrt(np.maximum(27 * temp ** 2 - 4 * temp ** 3, 0))
+    one_real_root = (2 / 3 / (3 ** 0.5 * discriminant + 9 * temp)) ** (1 / 3) * temp + \
+                    ((3 ** 0.5 * discriminant + 9 * temp) / (2 * 3 ** 2)) ** (1 / 3)
+    cos_angle = np.minimum((27 / 4 / temp) ** 0.5, 1)
+    three_real_roots = 2 * (temp / 3) ** 0.5 * np.cos(np.arccos(cos_angle) / 3)
+    return one_real_root * (temp <= 27 / 4) + three_real_roots * (temp > 27 / 4)
 
 
 def mass_2_and_chirp_mass_to_mass_ratio(mass_2, chirp_mass):
@@ -1621,7 +1633,7 @@ def binary_love_lambda_symmetric_to_lambda_1_lambda_2_automatic_marginalisation(
     """
     from ..core.utils.random import rng
 
-    binary_love_uniform = rng.uniform(0, 1, len(lambda_symmetric))
+    binary_love_uniform = rng.uniform(0, 1, np.shape(lambda_symmetric))
 
     lambda_1, lambda_2 = binary_love_lambda_symmetric_to_lambda_1_lambda_2_manual_marginalisation(
         binary_love_uniform, lambda_symmetric, mass_ratio)
@@ -1639,6 +1651,8 @@ def _generate_all_cbc_parameters(sample, defaults, base_conversion,
             output_sample[key] = \
                 likelihood.waveform_generator.waveform_arguments[key]
         except (KeyError, AttributeError):
+            if key in output_sample:
+                continue
             default = waveform_defaults[key]
             output_sample[key] = default
             logger.debug('Assuming {} = {}'.format(key, default))
@@ -1920,7 +1934,7 @@ def generate_component_masses(sample, require_add=False, source=False):
                     chirp_mass=output_sample[chirp_mass_key])
             )
         else:
-            check_and_return_quietly(require_add, sample)
+            return check_and_return_quietly(require_add, sample)
 
         output_sample[mass_1_key] = 1 / output_sample["mass_ratio"] * (
             output_sample[mass_2_key]
@@ -2121,7 +2135,7 @@ def generate_component_spins(sample):
             output_sample['spin_1y'], output_sample['spin_1z'],
             output_sample['spin_2x'], output_sample['spin_2y'],
             output_sample['spin_2z']
-        ) = np.vectorize(bilby_to_lalsimulation_spins)(
+        ) = np.vectorize(bilby_to_lalsimulation_spins, otypes=[float] * 7)(
             output_sample['theta_jn'], output_sample['phi_jl'],
             output_sample['tilt_1'], output_sample['tilt_2'],
             output_sample['phi_12'], output_sample['a_1'], output_sample['a_2'],
-- 
2.43.0


From 1059df32fd4655fd7c3eb8689cc41da3753cb696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:35 +0000
Subject: [PATCH 28/43] fix: core likelihoods depend on their current
 parameters only

---
 bilby/core/likelihood.py | 49 +++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/bilby/core/likelihood.py b/bilby/core/likelihood.py
index 7b90e21..f8ee7d8 100644
--- a/bilby/core/likelihood.py
+++ b/bilby/core/likelihood.py
@@ -89,6 +89,9 @@ class ZeroLikelihood(Likelihood):
         return 0
 
     def __getattr__(self, name):
+        if name == "_parent":
+            # not set yet, e.g., when copying or unpickling
+            raise AttributeError(name)
         return getattr(self._parent, name)
 
 
@@ -266,7 +269,7 @@ class PoissonLikelihood(Analytical1DLikelihood):
         elif np.any(rate == 0.):
             return -np.inf
         else:
-            return np.sum(-rate + self.y * np.log(rate) - gammaln(self.y + 1))
+            return np.sum(-rate + self.y * np.log(rate) - gammaln(self.y.astype(float) + 1))
 
     def __repr__(self):
         return Analytical1DLikelihood.__repr__(self)
@@ -307,7 +310,7 @@ class ExponentialLikelihood(Analytical1DLikelihood):
 
     def log_likelihood(self):
         mu = self.func(self.x, **self.model_parameters, **self.kwargs)
-        if np.any(mu < 0.):
+        if np.any(mu <= 0.):
             return -np.inf
         return -np.sum(np.log(mu) + (self.y / mu))
 
@@ -420,11 +423,9 @@ class Multinomial(Likelihood):
             The base of the parameter labels
         """
         self.data = np.array(data)
-        self._total = np.sum(self.data)
         super(Multinomial, self).__init__(dict())
         self.n = n_dimensions
         self.base = base
-        self._nll = None
 
     def log_likelihood(self):
         """
@@ -433,6 +434,8 @@ class Multinomial(Likelihood):
         probs = [self.parameters[self.base + str(ii)]
                  for ii in range(self.n - 1)]
         probs.append(1 - sum(probs))
+        if any(prob < 0 for prob in probs):
+            return -np.inf
         return self._multinomial_ln_pdf(probs=probs)
 
     def noise_log_likelihood(self):
@@ -440,13 +443,11 @@ class Multinomial(Likelihood):
         Our null hypothesis is that all bins have probability 1 / nbins, i.e.,
         no bin is preferred over any other.
         """
-        if self._nll is None:
-            self._nll = self._multinomial_ln_pdf(probs=1 / self.n)
-        return self._nll
+        return self._multinomial_ln_pdf(probs=1 / self.n)
 
     def _multinomial_ln_pdf(self, probs):
         """Lifted from scipy.stats.multinomial._logpdf"""
-        ln_prob = gammaln(self._total + 1) + np.sum(
+        ln_prob = gammaln(np.sum(self.data) + 1) + np.sum(
             xlogy(self.data, probs) - gammaln(self.data + 1), axis=-1)
         return ln_prob
 
@@ -530,17 +531,30 @@ class JointLikelihood(Likelihood):
         *likelihoods: bilby.core.likelihood.Likelihood
             likelihoods to be combined parsed as arguments
         """
+        self._parameters = {}
         self.likelihoods = likelihoods
-        super(JointLikelihood, self).__init__(parameters={})
-        self.__sync_parameters()
+        super(JointLikelihood, self).__init__(parameters=self.parameters)
 
     def __sync_parameters(self):
         """ Synchronizes parameters between the likelihoods
         so that all likelihoods share a single parameter dict."""
+        parameters = {}
         for likelihood in self.likelihoods:
-            self.parameters.update(likelihood.parameters)
+            parameters.update(likelihood.parameters)
+        parameters.update(self.parameters)
+        self.parameters.update(parameters)
+        self.parameters = self.parameters
+
+    @property
+    def parameters(self):
+        """ The parameter dict shared by all of the likelihoods """
+        return self._parameters
+
+    @parameters.setter
+    def parameters(self, parameters):
+        self._parameters = parameters
         for likelihood in self.likelihoods:
-            likelihood.parameters = self.parameters
+            likelihood.parameters = parameters
 
     @property
     def likelihoods(self):
@@ -560,6 +574,7 @@ class JointLikelihood(Likelihood):
             self._likelihoods = [likelihoods]
         else:
             raise ValueError('Input likelihood is not a list of tuple. You need to set multiple likelihoods.')
+        self.__sync_parameters()
 
     def log_likelihood(self):
         """ This is just the sum of the log likelihoods of all parts of the joint likelihood"""
@@ -680,7 +695,8 @@ class CeleriteLikelihood(_GPLikelihood):
         =======
         float: The log-likelihood value.
         """
-        self.gp.set_parameter_vector(vector=np.array(list(self.parameters.values())))
+        self.gp.set_parameter_vector(
+            vector=np.array([self.parameters[name] for name in self.gp.get_parameter_names()]))
         try:
             return self.gp.log_likelihood(self.y)
         except Exception:
@@ -720,11 +736,8 @@ class GeorgeLikelihood(_GPLikelihood):
         =======
         float: The log-likelihood value.
         """
-        for name, value in self.parameters.items():
-            try:
-                self.gp.set_parameter(name=name, value=value)
-            except ValueError:
-                raise ValueError(f"Parameter {name} not a valid parameter for the GP.")
+        for name in self.gp.get_parameter_names():
+            self.gp.set_parameter(name=name, value=self.parameters[name])
         try:
             return self.gp.log_likelihood(self.y)
         except Exception:
-- 
2.43.0


From 89d3d9785f721373f577eefa9a910f40c49ad8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:25 +0000
Subject: [PATCH 29/43] fix: population models and sampling priors are
 evaluated on the data given

---
 bilby/hyper/likelihood.py | 13 +++++++++----
 bilby/hyper/model.py      |  5 ++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/bilby/hyper/likelihood.py b/bilby/hyper/likelihood.py
index c5ea8b0..b287f1e 100644
--- a/bilby/hyper/likelihood.py
+++ b/bilby/hyper/likelihood.py
@@ -61,9 +61,8 @@ class HyperparameterLikelihood(Likelihood):
 
     def log_likelihood_ratio(self):
         self.hyper_prior.parameters.update(self.parameters)
-        log_l = np.sum(np.log(np.sum(self.hyper_prior.prob(self.data) /
+        log_l = np.sum(np.log(np.mean(self.hyper_prior.prob(self.data) /
                        self.data['prior'], axis=-1)))
-        log_l += self.samples_factor
         return np.nan_to_num(log_l)
 
     def noise_log_likelihood(self):
@@ -91,7 +90,10 @@ class HyperparameterLikelihood(Likelihood):
             self.max_samples = max_samples
         for posterior in self.posteriors:
             self.max_samples = min(len(posterior), self.max_samples)
-        data = {key: [] for key in self.posteriors[0]}
+        data = {
+            key: [] for key in self.posteriors[0]
+            if all(key in posterior for posterior in self.posteriors)
+        }
         if 'log_prior' in data.keys():
             data.pop('log_prior')
         if 'prior' not in data.keys():
@@ -100,7 +102,10 @@ class HyperparameterLikelihood(Likelihood):
             self.max_samples))
         for posterior in self.posteriors:
             temp = posterior.sample(self.max_samples)
-            if self.sampling_prior is not None:
+            if isinstance(self.sampling_prior, PriorDict):
+                sample = {key: temp[key] for key in temp if key in self.sampling_prior}
+                temp['prior'] = self.sampling_prior.prob(sample, axis=0)
+            elif self.sampling_prior is not None:
                 temp['prior'] = self.sampling_prior.prob(temp, axis=0)
             elif 'log_prior' in temp.keys():
                 temp['prior'] = np.exp(temp['log_prior'])
diff --git a/bilby/hyper/model.py b/bilby/hyper/model.py
index 3e84fbb..7e32320 100644
--- a/bilby/hyper/model.py
+++ b/bilby/hyper/model.py
@@ -32,6 +32,7 @@ class Model:
         self.cache = cache
         self._cached_parameters = {model: None for model in self.models}
         self._cached_probability = {model: None for model in self.models}
+        self._cached_data = {model: None for model in self.models}
 
         self.parameters = dict()
 
@@ -56,6 +57,7 @@ class Model:
             function_parameters = self._get_function_parameters(function)
             if (
                 self.cache
+                and self._cached_data[function] is data
                 and self._cached_parameters[function] == function_parameters
             ):
                 new_probability = self._cached_probability[function]
@@ -66,7 +68,8 @@ class Model:
                 if self.cache:
                     self._cached_parameters[function] = function_parameters
                     self._cached_probability[function] = new_probability
-            probability *= new_probability
+                    self._cached_data[function] = data
+            probability = probability * new_probability
         return probability
 
     def _get_function_parameters(self, func):
-- 
2.43.0


From d9af1e53d54e64ed147febca8b0ca971bdcc1486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:59 +0000
Subject: [PATCH 30/43] fix: values survive the JSON and HDF5 encodings

---
 bilby/core/prior/joint.py |  2 +-
 bilby/core/utils/io.py    | 72 +++++++++++++++++++++++++--------------
 2 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index 478bd9f..1c487c3 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -56,7 +56,7 @@ class BaseJointPriorDist(object):
                     raise TypeError("Bound must be a list")
         else:
             bounds = [(-np.inf, np.inf) for _ in self.names]
-        self.bounds = {name: val for name, val in zip(self.names, bounds)}
+        self.bounds = {name: tuple(val) for name, val in zip(self.names, bounds)}
 
         self._current_sample = {}  # initialise empty sample
         self._uncorrelated = None
diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index cc8329e..3e9d524 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -35,6 +35,10 @@ class BilbyJsonEncoder(json.JSONEncoder):
             return int(obj)
         if isinstance(obj, np.floating):
             return float(obj)
+        if isinstance(obj, np.bool_):
+            return bool(obj)
+        if isinstance(obj, np.complexfloating):
+            obj = complex(obj)
         if isinstance(obj, PriorDict):
             return {"__prior_dict__": True, "content": obj._get_json_dict()}
         if isinstance(obj, (BaseJointPriorDist, Prior)):
@@ -53,7 +57,7 @@ class BilbyJsonEncoder(json.JSONEncoder):
                 return encode_astropy_cosmology(obj)
             if isinstance(obj, units.Quantity):
                 return encode_astropy_quantity(obj)
-            if isinstance(obj, units.PrefixUnit):
+            if isinstance(obj, units.UnitBase):
                 return str(obj)
         except ImportError:
             logger.debug("Cannot import astropy, cannot write cosmological priors")
@@ -64,7 +68,12 @@ class BilbyJsonEncoder(json.JSONEncoder):
         if isinstance(obj, pd.DataFrame):
             return {"__dataframe__": True, "content": obj.to_dict(orient="list")}
         if isinstance(obj, pd.Series):
-            return {"__series__": True, "content": obj.to_dict()}
+            return {
+                "__series__": True,
+                "content": obj.tolist(),
+                "index": obj.index.tolist(),
+                "name": obj.name,
+            }
         if inspect.isfunction(obj):
             return {
                 "__function__": True,
@@ -89,6 +98,7 @@ class BilbyJsonEncoder(json.JSONEncoder):
 def encode_astropy_cosmology(obj):
     cls_name = obj.__class__.__name__
     dct = {key: getattr(obj, key) for key in infer_args_from_method(obj.__init__)}
+    dct["name"] = obj.name
     dct["__cosmology__"] = True
     dct["__name__"] = cls_name
     return dct
@@ -177,7 +187,7 @@ def decode_bilby_json(dct):
     if dct.get("__dataframe__", False):
         return pd.DataFrame(dct["content"])
     if dct.get("__series__", False):
-        return pd.Series(dct["content"])
+        return pd.Series(dct["content"], index=dct.get("index"), name=dct.get("name"))
     if dct.get("__function__", False) or dct.get("__class__", False):
         default = ".".join([dct["__module__"], dct["__name__"]])
         return getattr(import_module(dct["__module__"]), dct["__name__"], default)
@@ -236,7 +246,7 @@ def decode_from_hdf5(item):
         if item.size == 0:
             output = item
         elif "|S" in str(item.dtype) or isinstance(item[0], bytes):
-            output = [it.decode() for it in item]
+            output = [decode_from_hdf5(it) for it in item]
         else:
             output = item
     elif isinstance(item, np.bool_):
@@ -264,40 +274,34 @@ def encode_for_hdf5(key, item):
     """
     from ..prior.dict import PriorDict
 
-    if isinstance(item, np.int_):
-        item = int(item)
-    elif isinstance(item, np.float64):
-        item = float(item)
-    elif isinstance(item, np.complex128):
-        item = complex(item)
-    if isinstance(item, np.ndarray):
+    if isinstance(item, np.generic):
+        item = item.item()
+    if isinstance(item, np.ndarray) and hasattr(item, "unit"):
+        item = encode_astropy_quantity(item)
+    elif isinstance(item, np.ndarray):
         # Numpy's wide unicode strings are not supported by hdf5
         if item.dtype.kind == 'U':
             logger.debug(f'converting dtype {item.dtype} for hdf5')
-            item = np.array(item, dtype='S')
+            item = np.char.encode(item, "utf-8")
     if isinstance(item, (np.ndarray, int, float, complex, str, bytes)):
         output = item
     elif item is None:
         output = "__none__"
-    elif isinstance(item, list):
-        item_array = np.array(item)
-        if len(item) == 0:
-            output = item
-        elif np.issubdtype(item_array.dtype, np.number):
+    elif isinstance(item, (list, tuple)):
+        if _is_numeric(item):
             output = np.array(item)
-        elif issubclass(item_array.dtype.type, str) or None in item:
+        elif all(isinstance(value, (str, bytes)) or value is None for value in item):
             output = list()
             for value in item:
                 if isinstance(value, str):
                     output.append(value.encode("utf-8"))
                 elif isinstance(value, bytes):
                     output.append(value)
-                elif value is None:
-                    output.append(b"__none__")
                 else:
-                    output.append(str(value).encode("utf-8"))
+                    output.append(b"__none__")
         else:
-            raise ValueError(f'Cannot save {key}: {type(item)} type')
+            output = {str(ii): elem for ii, elem in enumerate(item)}
+            output["__sequence__"] = True
     elif isinstance(item, PriorDict):
         output = json.dumps(item._get_json_dict())
     elif isinstance(item, pd.DataFrame):
@@ -308,8 +312,6 @@ def encode_for_hdf5(key, item):
         )
     elif isinstance(item, dict):
         output = item.copy()
-    elif isinstance(item, tuple):
-        output = {str(ii): elem for ii, elem in enumerate(item)}
     elif isinstance(item, datetime.timedelta):
         output = item.total_seconds()
     else:
@@ -317,6 +319,21 @@ def encode_for_hdf5(key, item):
     return output
 
 
+def _is_numeric(item):
+    """ Whether an item can be written as a single array of numbers """
+    if isinstance(item, (list, tuple)):
+        if not all(_is_numeric(value) for value in item):
+            return False
+        try:
+            return np.array(item).dtype.kind in "biufc"
+        except ValueError:
+            return False
+    elif isinstance(item, np.ndarray):
+        return item.dtype.kind in "biufc" and not hasattr(item, "unit")
+    else:
+        return isinstance(item, (bool, int, float, complex, np.bool_, np.number))
+
+
 def recursively_load_dict_contents_from_group(h5file, path):
     """
     Recursively load a HDF5 file into a dictionary
@@ -345,7 +362,9 @@ def recursively_load_dict_contents_from_group(h5file, path):
             output[key] = recursively_load_dict_contents_from_group(
                 h5file, path + key + "/"
             )
-    return output
+    if output.pop("__sequence__", False):
+        return [output[str(ii)] for ii in range(len(output))]
+    return decode_bilby_json(output)
 
 
 def recursively_save_dict_contents_to_group(h5file, path, dic):
@@ -364,8 +383,11 @@ def recursively_save_dict_contents_to_group(h5file, path, dic):
         The dictionary containing the data
     """
     for key, item in dic.items():
+        if "/" in key:
+            raise ValueError(f"Cannot save {key}: names cannot contain '/'")
         item = encode_for_hdf5(key, item)
         if isinstance(item, dict):
+            h5file.require_group(path + key)
             recursively_save_dict_contents_to_group(h5file, path + key + "/", item)
         else:
             h5file[path + key] = item
-- 
2.43.0


From 56c4b9df83661a195ffd9320a3441262dd75f60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:38 +0000
Subject: [PATCH 31/43] fix: results are saved completely, in the format asked
 for, and without side effects

---
 bilby/core/grid.py     | 12 +++++---
 bilby/core/result.py   | 66 +++++++++++++++++++++++++++---------------
 bilby/core/utils/io.py | 29 +++++++++++++++++--
 3 files changed, 78 insertions(+), 29 deletions(-)

diff --git a/bilby/core/grid.py b/bilby/core/grid.py
index 4e88168..f83d0cc 100644
--- a/bilby/core/grid.py
+++ b/bilby/core/grid.py
@@ -6,7 +6,7 @@ import numpy as np
 from .prior import Prior, PriorDict
 from .utils import (
     logtrapzexp, check_directory_exists_and_if_not_mkdir, logger,
-    BilbyJsonEncoder, load_json, move_old_file
+    BilbyJsonEncoder, load_json, replace_file
 )
 from .result import FileMovedError
 
@@ -398,20 +398,24 @@ class Grid(object):
 
             filename = grid_file_name(outdir, self.label, gzip)
 
-        move_old_file(filename, overwrite)
         dictionary = self._get_save_data_dictionary()
 
+        filename = os.fspath(filename)
+        temp_filename = filename + ".temp"
+        if os.path.exists(temp_filename):
+            os.remove(temp_filename)
         try:
             dictionary["priors"] = dictionary["priors"]._get_json_dict()
             if gzip or (os.path.splitext(filename)[-1] == '.gz'):
                 import gzip
                 # encode to a string
                 json_str = json.dumps(dictionary, cls=BilbyJsonEncoder).encode('utf-8')
-                with gzip.GzipFile(filename, 'w') as file:
+                with gzip.GzipFile(temp_filename, 'w') as file:
                     file.write(json_str)
             else:
-                with open(filename, 'w') as file:
+                with open(temp_filename, 'w') as file:
                     json.dump(dictionary, file, indent=2, cls=BilbyJsonEncoder)
+            replace_file(temp_filename, filename, overwrite)
         except Exception as e:
             logger.error("\n\n Saving the data has failed with the "
                          "following message:\n {} \n\n".format(e))
diff --git a/bilby/core/result.py b/bilby/core/result.py
index c5d27bf..3e7fe76 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -18,7 +18,7 @@ from .utils import (
     check_directory_exists_and_if_not_mkdir,
     latex_plot_format, safe_save_figure,
     BilbyJsonEncoder, load_json,
-    move_old_file, get_version_information,
+    move_old_file, replace_file, get_version_information,
     decode_bilby_json, docstring,
     recursively_save_dict_contents_to_group,
     recursively_load_dict_contents_from_group,
@@ -57,6 +57,8 @@ def result_file_name(outdir, label, extension='json', gzip=False):
     """
     if extension == 'pickle':
         extension = 'pkl'
+    elif extension == 'h5':
+        extension = 'hdf5'
     if extension in ['json', 'hdf5', 'pkl']:
         if extension == 'json' and gzip:
             return os.path.join(outdir, '{}_result.{}.gz'.format(label, extension))
@@ -525,7 +527,7 @@ class Result(object):
     @staticmethod
     @docstring(_load_doctstring.format(format="pickle"))
     def from_pickle(filename=None, outdir=None, label=None):
-        filename = _determine_file_name(filename, outdir, label, 'hdf5', False)
+        filename = _determine_file_name(filename, outdir, label, 'pkl', False)
         import dill
         with open(filename, "rb") as ff:
             return dill.load(ff)
@@ -537,10 +539,10 @@ class Result(object):
         filename = _determine_file_name(filename, outdir, label, 'hdf5', False)
         with h5py.File(filename, "r") as ff:
             data = recursively_load_dict_contents_from_group(ff, '/')
-        data["posterior"] = pd.DataFrame(data["posterior"])
-        data["priors"] = PriorDict._get_from_json_dict(
-            json.loads(data["priors"], object_hook=decode_bilby_json)
-        )
+        if data.get("posterior", None) is not None:
+            data["posterior"] = pd.DataFrame(data["posterior"])
+        if data.get("priors", None) is not None:
+            data["priors"] = json.loads(data["priors"], object_hook=decode_bilby_json)
         try:
             cls = getattr(import_module(data['__module__']), data['__name__'])
         except ImportError:
@@ -742,7 +744,7 @@ class Result(object):
             'log_likelihood_evaluations', 'log_prior_evaluations',
             'num_likelihood_evaluations', 'samples', 'nested_samples',
             'walkers', 'nburn', 'parameter_labels', 'parameter_labels_with_unit',
-            'version']
+            'max_autocorrelation_time', 'version']
         dictionary = dict()
         for attr in save_attrs:
             try:
@@ -783,44 +785,65 @@ class Result(object):
         outdir = self._safe_outdir_creation(outdir, self.save_to_file)
         if filename is None:
             filename = result_file_name(outdir, self.label, extension, gzip)
-
-        move_old_file(filename, overwrite)
+        else:
+            # the format follows from the name as it does when reading the file
+            filename = os.fspath(filename)
+            base, ext = os.path.splitext(filename)
+            if ext == ".gz":
+                gzip = True
+                base, ext = os.path.splitext(base)
+            if ext.lstrip(".") in EXTENSIONS:
+                extension = ext.lstrip(".")
+            if extension == "json" and gzip and not filename.endswith(".gz"):
+                filename += ".gz"
+        extension = dict(h5="hdf5", pickle="pkl").get(extension, extension)
 
         # Convert the prior to a string representation for saving on disk
         dictionary = self._get_save_data_dictionary()
 
         # Convert callable sampler_kwargs to strings
         if dictionary.get('sampler_kwargs', None) is not None:
-            for key in dictionary['sampler_kwargs']:
-                if hasattr(dictionary['sampler_kwargs'][key], '__call__'):
-                    dictionary['sampler_kwargs'][key] = str(dictionary['sampler_kwargs'])
+            dictionary['sampler_kwargs'] = {
+                key: str(value) if hasattr(value, '__call__') else value
+                for key, value in dictionary['sampler_kwargs'].items()
+            }
 
+        temp_filename = filename + ".temp"
+        if os.path.exists(temp_filename):
+            os.remove(temp_filename)
         try:
             # convert priors to JSON dictionary for both JSON and hdf5 files
             if extension == 'json':
-                dictionary["priors"] = dictionary["priors"]._get_json_dict()
+                if "priors" in dictionary:
+                    dictionary["priors"] = dictionary["priors"]._get_json_dict()
                 if gzip:
                     import gzip
                     # encode to a string
                     json_str = json.dumps(dictionary, cls=BilbyJsonEncoder).encode('utf-8')
-                    with gzip.GzipFile(filename, 'w') as file:
+                    with gzip.GzipFile(temp_filename, 'w') as file:
                         file.write(json_str)
                 else:
-                    with open(filename, 'w') as file:
+                    with open(temp_filename, 'w') as file:
                         json.dump(dictionary, file, indent=2, cls=BilbyJsonEncoder)
             elif extension == 'hdf5':
                 import h5py
                 dictionary["__module__"] = self.__module__
                 dictionary["__name__"] = self.__class__.__name__
-                with h5py.File(filename, 'w') as h5file:
+                with h5py.File(temp_filename, 'w') as h5file:
                     recursively_save_dict_contents_to_group(h5file, '/', dictionary)
             elif extension == 'pkl':
-                safe_file_dump(self, filename, "dill")
+                safe_file_dump(self, temp_filename, "dill")
             else:
                 raise ValueError("Extension type {} not understood".format(extension))
+            replace_file(temp_filename, filename, overwrite)
         except Exception as e:
-            filename = ".".join(filename.split(".")[:-1]) + ".pkl"
+            if os.path.exists(temp_filename):
+                os.remove(temp_filename)
+            old_filename = filename
+            filename = os.path.splitext(filename)[0] + ".pkl"
             safe_file_dump(self, filename, "dill")
+            if old_filename != filename:
+                move_old_file(old_filename, overwrite)
             logger.error(
                 "\n\nSaving the data has failed with the following message:\n"
                 "{}\nData has been dumped to {}.\n\n".format(e, filename)
@@ -1637,7 +1660,7 @@ class Result(object):
             sample = [sample]
         ordered_sample = [[s[key] for key in self.search_parameter_keys]
                           for s in sample]
-        return self.kde(ordered_sample)
+        return self.kde(np.array(ordered_sample).T)
 
     def _safe_outdir_creation(self, outdir=None, caller_func=None):
         if outdir is None:
@@ -2057,10 +2080,7 @@ def plot_multiple(results, filename=None, labels=None, colours=None,
             linestyle = linestyles[i]
         else:
             linestyle = 'solid'
-        hist_kwargs = kwargs.get('hist_kwargs', dict())
-        hist_kwargs['color'] = c
-        hist_kwargs["linestyle"] = linestyle
-        kwargs["hist_kwargs"] = hist_kwargs
+        kwargs["hist_kwargs"] = dict(kwargs.get('hist_kwargs', dict()), color=c, linestyle=linestyle)
         fig = result.plot_corner(fig=fig, save=False, color=c, contour_kwargs={"linestyles": linestyle}, **kwargs)
         default_filename += '_{}'.format(result.label)
         lines.append(mpllines.Line2D([0], [0], color=c, linestyle=linestyle))
diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index 3e9d524..02be81f 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -288,9 +288,9 @@ def encode_for_hdf5(key, item):
     elif item is None:
         output = "__none__"
     elif isinstance(item, (list, tuple)):
-        if _is_numeric(item):
+        if len(item) > 0 and _is_numeric(item):
             output = np.array(item)
-        elif all(isinstance(value, (str, bytes)) or value is None for value in item):
+        elif len(item) > 0 and all(isinstance(value, (str, bytes)) or value is None for value in item):
             output = list()
             for value in item:
                 if isinstance(value, str):
@@ -408,11 +408,36 @@ def safe_file_dump(data, filename, module):
     if isinstance(module, str):
         module = import_module(module)
     temp_filename = filename + ".temp"
+    if os.path.exists(temp_filename):
+        # never write into a file which another, interrupted, dump may still hold
+        os.remove(temp_filename)
     with open(temp_filename, "wb") as file:
         module.dump(data, file)
     shutil.move(temp_filename, filename)
 
 
+def replace_file(new_filename, filename, overwrite=False):
+    """ Put a complete file in the place of another one
+
+    At every time there is a complete file with the given name, if there was
+    one before.
+
+    Parameters
+    ==========
+    new_filename: str
+        Name of the file which is moved
+    filename: str
+        Name that the file will have
+    overwrite: bool, optional
+        If False, an already existing file is kept as filename + '.old'
+    """
+    if os.path.isfile(filename) and not overwrite:
+        logger.debug("Keeping existing file {} as {}.old".format(filename, filename))
+        shutil.copyfile(filename, filename + ".old.temp")
+        os.replace(filename + ".old.temp", filename + ".old")
+    os.replace(new_filename, filename)
+
+
 def move_old_file(filename, overwrite=False):
     """ Moves or removes an old file.
 
-- 
2.43.0


From 90d131e5144acf9d52ba49405bb7a34dc092c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:14 +0000
Subject: [PATCH 32/43] fix: reweighting keeps the original result, matching
 priors and restartable checkpoints; lookup tables are replaced whole

---
 bilby/core/result.py        | 190 +++++++++++++++++++++---------------
 bilby/gw/likelihood/base.py |  34 ++++---
 2 files changed, 136 insertions(+), 88 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 3e7fe76..c4f201e 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -26,7 +26,7 @@ from .utils import (
     safe_file_dump,
     random,
 )
-from .prior import Prior, PriorDict, DeltaFunction, ConditionalDeltaFunction
+from .prior import Prior, PriorDict, Constraint, DeltaFunction, ConditionalDeltaFunction
 
 
 EXTENSIONS = ["json", "hdf5", "h5", "pickle", "pkl"]
@@ -161,6 +161,29 @@ def read_in_result_list(filename_list, invalid="warning"):
     return ResultList(results_list)
 
 
+def _read_reweighting_checkpoint(resume_file, nposterior):
+    """ Read the evaluations stored for the first samples, None if the file is not usable """
+    with open(resume_file, "r") as ff:
+        header = ff.readline()
+        try:
+            if header.split() != ["#", "reweighting", str(nposterior)]:
+                raise ValueError("the file belongs to another posterior or version")
+            completed = np.loadtxt(ff, ndmin=2)
+            if completed.shape[0] != 4 or completed.shape[1] > nposterior:
+                raise ValueError("unexpected content")
+            return completed
+        except ValueError as e:
+            logger.warning(f"Ignoring reweighting resume file {resume_file}: {e}")
+            return None
+
+
+def _write_reweighting_checkpoint(resume_file, completed, nposterior):
+    """ Store the evaluations for the first samples, the file is always complete """
+    temp_filename = os.fspath(resume_file) + ".temp"
+    np.savetxt(temp_filename, completed, header=f"reweighting {nposterior}")
+    os.replace(temp_filename, resume_file)
+
+
 def get_weights_for_reweighting(
         result, new_likelihood=None, new_prior=None, old_likelihood=None,
         old_prior=None, resume_file=None, n_checkpoint=5000, npool=1):
@@ -189,78 +212,84 @@ def get_weights_for_reweighting(
 
     nposterior = len(result.posterior)
 
+    # rows: old log likelihood, old log prior, new log likelihood, new log prior
+    arrays = np.zeros((4, nposterior))
+    starting_index = 0
     if (resume_file is not None) and os.path.exists(resume_file):
-        old_log_likelihood_array, old_log_prior_array, new_log_likelihood_array, new_log_prior_array = \
-            np.genfromtxt(resume_file)
-
-        starting_index = np.argmin(np.abs(old_log_likelihood_array))
-        logger.info(f'Checkpoint resuming from {starting_index}.')
-
-    else:
-        old_log_likelihood_array = np.zeros(nposterior)
-        old_log_prior_array = np.zeros(nposterior)
-        new_log_likelihood_array = np.zeros(nposterior)
-        new_log_prior_array = np.zeros(nposterior)
-
-        starting_index = 0
-
-    dict_samples = [{key: sample[key] for key in result.posterior}
-                    for _, sample in result.posterior.iterrows()]
-    n = len(dict_samples) - starting_index
-
-    # Helper function to compute likelihoods in parallel
-    def eval_pool(this_logl):
-        with multiprocessing.Pool(processes=npool) as pool:
-            chunksize = max(100, n // (2 * npool))
-            return list(tqdm(
-                pool.imap(partial(__eval_l, this_logl),
-                        dict_samples[starting_index:], chunksize=chunksize),
-                desc='Computing likelihoods',
-                total=n)
-            )
-
-    if old_likelihood is None:
-        old_log_likelihood_array[starting_index:] = \
-            result.posterior["log_likelihood"][starting_index:].to_numpy()
-    else:
-        old_log_likelihood_array[starting_index:] = eval_pool(old_likelihood)
+        completed = _read_reweighting_checkpoint(resume_file, nposterior)
+        if completed is not None:
+            starting_index = completed.shape[1]
+            arrays[:, :starting_index] = completed
+            logger.info(f'Checkpoint resuming from {starting_index}.')
+
+    columns = {key: result.posterior[key].to_numpy() for key in result.posterior}
+    stored_log_likelihood = columns.pop("log_likelihood", None)
+    stored_log_prior = columns.pop("log_prior", None)
+    if old_prior is None and new_prior is not None and stored_log_prior is None:
+        old_prior = result.priors
+    dict_samples = [{key: columns[key][ii] for key in columns} for ii in range(nposterior)]
+
+    def eval_prior(prior, sample):
+        # Only the free parameters of the prior, as when sampling
+        return prior.ln_prob({
+            key: sample[key] for key in prior
+            if key in sample and not isinstance(prior[key], (Constraint, DeltaFunction))
+        })
+
+    # Evaluate in blocks, after each of which everything known is stored
+    block = nposterior if resume_file is None else max(int(n_checkpoint), 1)
+    for start in range(starting_index, nposterior, max(block, 1)):
+        stop = min(start + block, nposterior)
+        n = stop - start
+
+        # Helper function to compute likelihoods in parallel
+        def eval_pool(this_logl):
+            with multiprocessing.Pool(processes=npool) as pool:
+                chunksize = max(100, n // (2 * npool))
+                return list(tqdm(
+                    pool.imap(partial(__eval_l, this_logl),
+                              dict_samples[start:stop], chunksize=chunksize),
+                    desc='Computing likelihoods',
+                    total=n)
+                )
 
-    if new_likelihood is None:
-        # Don't perform likelihood reweighting (i.e. likelihood isn't updated)
-        new_log_likelihood_array[starting_index:] = old_log_likelihood_array[starting_index:]
-    else:
-        new_log_likelihood_array[starting_index:] = eval_pool(new_likelihood)
-
-    # Compute priors
-    for ii, sample in enumerate(tqdm(dict_samples[starting_index:],
-                                     desc='Computing priors',
-                                     total=n),
-                                start=starting_index):
-        # prior calculation needs to not have prior or likelihood keys
-        ln_prior = sample.pop("log_prior", np.nan)
-        if "log_likelihood" in sample:
-            del sample["log_likelihood"]
-
-        if old_prior is not None:
-            old_log_prior_array[ii] = old_prior.ln_prob(sample)
+        if old_likelihood is None:
+            arrays[0, start:stop] = stored_log_likelihood[start:stop]
         else:
-            old_log_prior_array[ii] = ln_prior
+            arrays[0, start:stop] = eval_pool(old_likelihood)
 
-        if new_prior is not None:
-            new_log_prior_array[ii] = new_prior.ln_prob(sample)
+        if new_likelihood is None:
+            # Don't perform likelihood reweighting (i.e. likelihood isn't updated)
+            arrays[2, start:stop] = arrays[0, start:stop]
         else:
-            # Don't perform prior reweighting (i.e. prior isn't updated)
-            new_log_prior_array[ii] = old_log_prior_array[ii]
+            arrays[2, start:stop] = eval_pool(new_likelihood)
+
+        # Compute priors
+        for ii, sample in enumerate(tqdm(dict_samples[start:stop], desc='Computing priors', total=n), start=start):
+            if old_prior is not None:
+                arrays[1, ii] = eval_prior(old_prior, sample)
+            elif stored_log_prior is not None:
+                arrays[1, ii] = stored_log_prior[ii]
+            else:
+                arrays[1, ii] = np.nan
 
-        if (ii % (n_checkpoint) == 0) and (resume_file is not None):
-            checkpointed_index = np.argmin(np.abs(old_log_likelihood_array))
-            logger.info(f'Checkpointing with {checkpointed_index} samples')
-            np.savetxt(
-                resume_file,
-                [old_log_likelihood_array, old_log_prior_array, new_log_likelihood_array, new_log_prior_array])
+            if new_prior is not None:
+                arrays[3, ii] = eval_prior(new_prior, sample)
+            else:
+                # Don't perform prior reweighting (i.e. prior isn't updated)
+                arrays[3, ii] = arrays[1, ii]
+
+        if resume_file is not None:
+            logger.info(f'Checkpointing with {stop} samples')
+            _write_reweighting_checkpoint(resume_file, arrays[:, :stop], nposterior)
 
-    ln_weights = (
-        new_log_likelihood_array + new_log_prior_array - old_log_likelihood_array - old_log_prior_array)
+    old_log_likelihood_array, old_log_prior_array, new_log_likelihood_array, new_log_prior_array = arrays
+
+    ln_weights = np.zeros(nposterior)
+    if new_likelihood is not None:
+        ln_weights += new_log_likelihood_array - old_log_likelihood_array
+    if new_prior is not None:
+        ln_weights += new_log_prior_array - old_log_prior_array
 
     return ln_weights, new_log_likelihood_array, new_log_prior_array, old_log_likelihood_array, old_log_prior_array
 
@@ -339,10 +368,11 @@ def reweight(result, label=None, new_likelihood=None, new_prior=None,
     """
     from scipy.special import logsumexp
 
-    result = copy(result)
+    original, result = result, copy(result)
+    result._kde = None
+    result.meta_data = copy(original.meta_data)
 
-    if use_nested_samples:
-        result.posterior = result.nested_samples
+    result.posterior = (original.nested_samples if use_nested_samples else original.posterior).copy()
 
     nposterior = len(result.posterior)
     logger.info("Reweighting posterior with {} samples".format(nposterior))
@@ -354,27 +384,35 @@ def reweight(result, label=None, new_likelihood=None, new_prior=None,
             resume_file=resume_file, n_checkpoint=n_checkpoint, npool=npool)
 
     if use_nested_samples:
-        ln_weights += np.log(result.posterior["weights"])
+        nested_weights = result.posterior["weights"].to_numpy()
+        with np.errstate(divide="ignore"):
+            ln_weights = np.where(nested_weights > 0, ln_weights + np.log(nested_weights), -np.inf)
 
-    weights = np.exp(ln_weights)
+    with np.errstate(over="ignore"):
+        weights = np.exp(ln_weights)
 
     # Overwrite the likelihood and prior evaluations
     result.posterior["log_likelihood"] = new_log_likelihood_array
     result.posterior["log_prior"] = new_log_prior_array
 
-    result.posterior = rejection_sample(result.posterior, weights=weights)
+    with np.errstate(invalid="ignore"):
+        relative_weights = np.exp(ln_weights - np.max(ln_weights))
+    result.posterior = rejection_sample(result.posterior, weights=relative_weights)
     result.posterior = result.posterior.reset_index(drop=True)
     logger.info("Rejection sampling resulted in {} samples".format(len(result.posterior)))
     result.meta_data["reweighted_using_rejection_sampling"] = True
 
     if use_nested_samples:
-        result.log_evidence += np.log(np.sum(weights))
+        result.log_evidence += logsumexp(ln_weights)
     else:
         result.log_evidence += logsumexp(ln_weights) - np.log(nposterior)
+    result.log_bayes_factor = result.log_evidence - result.log_noise_evidence
 
     if new_prior is not None:
-        for key, prior in new_prior.items():
-            result.priors[key] = prior
+        result.priors = copy(new_prior)
+        for key, prior in (original._priors or dict()).items():
+            if key not in result.priors:
+                result.priors[key] = prior
 
     if conversion_function is not None:
         data_frame = result.posterior
@@ -1660,7 +1698,7 @@ class Result(object):
             sample = [sample]
         ordered_sample = [[s[key] for key in self.search_parameter_keys]
                           for s in sample]
-        return self.kde(np.array(ordered_sample).T)
+        return self.kde(ordered_sample)
 
     def _safe_outdir_creation(self, outdir=None, caller_func=None):
         if outdir is None:
diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index d04b28d..a9677ba 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -1,6 +1,8 @@
 
 import os
 import copy
+import zipfile
+import zlib
 
 import attr
 import numpy as np
@@ -884,7 +886,7 @@ class GravitationalWaveTransient(Likelihood):
             lookup_table = self.load_lookup_table(
                 self.cached_lookup_table_filename)
         if isinstance(lookup_table, dict):
-            if self._test_cached_lookup_table(lookup_table):
+            if self._test_cached_lookup_table(lookup_table)[0]:
                 self._dist_margd_loglikelihood_array = lookup_table[
                     'lookup_table']
             else:
@@ -912,10 +914,10 @@ class GravitationalWaveTransient(Likelihood):
     def load_lookup_table(self, filename):
         if os.path.exists(filename):
             try:
-                loaded_file = dict(np.load(filename))
-            except AttributeError as e:
-                logger.warning(e)
-                self._create_lookup_table()
+                with np.load(filename) as file:
+                    loaded_file = dict(file)
+            except (AttributeError, EOFError, OSError, ValueError, KeyError, zipfile.BadZipFile, zlib.error) as e:
+                logger.warning(f"Distance marginalisation file {filename} can not be read: {e}")
                 return None
             match, failure = self._test_cached_lookup_table(loaded_file)
             if match:
@@ -931,12 +933,16 @@ class GravitationalWaveTransient(Likelihood):
         return None
 
     def cache_lookup_table(self):
-        np.savez(self.cached_lookup_table_filename,
-                 distance_array=self._distance_array,
-                 prior_array=self.distance_prior_array,
-                 lookup_table=self._dist_margd_loglikelihood_array,
-                 reference_distance=self._ref_dist,
-                 phase_marginalization=self.phase_marginalization)
+        # write under another name first, so that the file is always complete
+        temp_filename = self.cached_lookup_table_filename + ".temp"
+        with open(temp_filename, "wb") as file:
+            np.savez(file,
+                     distance_array=self._distance_array,
+                     prior_array=self.distance_prior_array,
+                     lookup_table=self._dist_margd_loglikelihood_array,
+                     reference_distance=self._ref_dist,
+                     phase_marginalization=self.phase_marginalization)
+        os.replace(temp_filename, self.cached_lookup_table_filename)
 
     def _test_cached_lookup_table(self, loaded_file):
         pairs = dict(
@@ -947,10 +953,14 @@ class GravitationalWaveTransient(Likelihood):
         for key in pairs:
             if key not in loaded_file:
                 return False, key
+            elif np.shape(loaded_file[key]) != np.shape(pairs[key]):
+                return False, key
             elif not np.allclose(np.atleast_1d(loaded_file[key]),
                                  np.atleast_1d(pairs[key]),
-                                 rtol=1e-15):
+                                 rtol=1e-10, atol=0):
                 return False, key
+        if "lookup_table" not in loaded_file:
+            return False, "lookup_table"
         return True, None
 
     def _create_lookup_table(self):
-- 
2.43.0


From 8422dd8da0bf03a61a8e2f82ebd8b9ce3f616ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:14 +0000
Subject: [PATCH 33/43] fix: ensemble samplers report the likelihood of each
 sample, and restarts survive states saved before sampling began

---
 bilby/core/sampler/__init__.py     |  2 +-
 bilby/core/sampler/base_sampler.py | 14 +++++++++++---
 bilby/core/sampler/dynesty.py      |  7 +++++--
 bilby/core/sampler/emcee.py        |  7 +++++--
 bilby/core/sampler/kombine.py      |  4 +---
 bilby/core/sampler/zeus.py         |  6 +++---
 6 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/bilby/core/sampler/__init__.py b/bilby/core/sampler/__init__.py
index ef65ce1..254d7b4 100644
--- a/bilby/core/sampler/__init__.py
+++ b/bilby/core/sampler/__init__.py
@@ -309,7 +309,7 @@ def run_sampler(
         if result.sampling_time is None:
             result.sampling_time = end_time - start_time
         elif isinstance(result.sampling_time, (float, int)):
-            result.sampling_time = datetime.timedelta(result.sampling_time)
+            result.sampling_time = datetime.timedelta(seconds=result.sampling_time)
 
         logger.info(f"Sampling time: {result.sampling_time}")
         # Convert sampling time into seconds
diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 17a7b11..f2c9cb4 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -965,8 +965,14 @@ class _TemporaryFileSamplerMixin:
 
     def _check_and_load_sampling_time_file(self):
         if os.path.exists(self.time_file_path):
-            with open(self.time_file_path, "r") as time_file:
-                self.total_sampling_time = float(time_file.readline())
+            try:
+                with open(self.time_file_path, "r") as time_file:
+                    self.total_sampling_time = float(time_file.readline())
+            except ValueError:
+                logger.warning(
+                    f"Ignoring unreadable sampling time in {self.time_file_path}"
+                )
+                self.total_sampling_time = 0
         else:
             self.total_sampling_time = 0
 
@@ -975,8 +981,10 @@ class _TemporaryFileSamplerMixin:
         new_sampling_time = current_time - self.start_time
         self.total_sampling_time += new_sampling_time
 
-        with open(self.time_file_path, "w") as time_file:
+        temporary_path = f"{self.time_file_path}.temp"
+        with open(temporary_path, "w") as time_file:
             time_file.write(str(self.total_sampling_time))
+        os.replace(temporary_path, self.time_file_path)
 
         self.start_time = current_time
 
diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index 539531c..17b12e1 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -777,8 +777,11 @@ class Dynesty(NestedSampler):
                 if getattr(self.sampler, "added_live", False) and continuing:
                     self.sampler._remove_live_points()
                 self.sampler.nqueue = -1
-                self.start_time = self.sampler.kwargs.pop("start_time")
-                self.sampling_time = self.sampler.kwargs.pop("sampling_time")
+                # these are missing if the run was stopped before sampling began
+                if "start_time" in self.sampler.kwargs:
+                    self.start_time = self.sampler.kwargs.pop("start_time")
+                if "sampling_time" in self.sampler.kwargs:
+                    self.sampling_time = self.sampler.kwargs.pop("sampling_time")
                 self.sampler.queue_size = self.kwargs["queue_size"]
                 self.sampler.pool = self.pool
                 if self.pool is not None:
diff --git a/bilby/core/sampler/emcee.py b/bilby/core/sampler/emcee.py
index 2c12ee3..8447a23 100644
--- a/bilby/core/sampler/emcee.py
+++ b/bilby/core/sampler/emcee.py
@@ -418,8 +418,11 @@ class Emcee(MCMCSampler):
 
         self._generate_result()
 
-        self.result.samples = self.sampler.chain[:, self.nburn :, :].reshape(
-            (-1, self.ndim)
+        # the blobs are ordered by step and then by walker
+        self.result.samples = (
+            self.sampler.chain[:, self.nburn :, :]
+            .swapaxes(0, 1)
+            .reshape((-1, self.ndim))
         )
         self.result.walkers = self.sampler.chain
         return self.result
diff --git a/bilby/core/sampler/kombine.py b/bilby/core/sampler/kombine.py
index 4677519..e351823 100644
--- a/bilby/core/sampler/kombine.py
+++ b/bilby/core/sampler/kombine.py
@@ -212,9 +212,7 @@ class Kombine(Emcee):
 
         tmp_chain = self.sampler.chain[self.nburn :, :, :].copy()
         self.result.samples = tmp_chain.reshape((-1, self.ndim))
-        self.result.walkers = self.sampler.chain.reshape(
-            (self.nwalkers, self.nsteps, self.ndim)
-        )
+        self.result.walkers = self.sampler.chain.swapaxes(0, 1)
         return self.result
 
     def _setup_pool(self):
diff --git a/bilby/core/sampler/zeus.py b/bilby/core/sampler/zeus.py
index ad6e7ed..65ea840 100644
--- a/bilby/core/sampler/zeus.py
+++ b/bilby/core/sampler/zeus.py
@@ -178,9 +178,9 @@ class Zeus(Emcee):
                 f"`nburn < nsteps` ({self.result.nburn} < {self.nsteps})."
                 " Try increasing the number of steps."
             )
-        blobs = np.array(self.sampler.get_blobs(flat=True, discard=self.nburn)).reshape(
-            (-1, 2)
-        )
+        # the flattened chain is ordered by walker and then by step
+        blobs = np.array(self.sampler.get_blobs(discard=self.nburn))
+        blobs = blobs.swapaxes(0, 1).reshape((-1, 2))
         log_likelihoods, log_priors = blobs.T
         self.result.log_likelihood_evaluations = log_likelihoods
         self.result.log_prior_evaluations = log_priors
-- 
2.43.0


From b1280f1c1a59e9d37acc286fad047797fb911a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:38 +0000
Subject: [PATCH 34/43] fix: combined results have the uncertainty of the mean
 evidence, reproducible shuffling and checks in any order

---
 bilby/core/result.py | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index c4f201e..4a2c67c 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -1895,6 +1895,8 @@ class ResultList(list):
             return copy(self[0])
         else:
             result = copy(self[0])
+            # derived from the posterior of the first result only
+            result._kde = None
 
         if result.label is not None:
             result.label += '_combined'
@@ -1905,7 +1907,7 @@ class ResultList(list):
         self.check_consistent_priors()
 
         # check which kind of sampler was used: MCMC or Nested Sampling
-        if result._nested_samples is not None:
+        if any(res._nested_samples is not None for res in self):
             posteriors, result = self._combine_nested_sampled_runs(result)
         elif result.sampler in ["bilby_mcmc", "bilbymcmc"]:
             posteriors, result = self._combine_mcmc_sampled_runs(result)
@@ -1915,7 +1917,9 @@ class ResultList(list):
         combined_posteriors = pd.concat(posteriors, ignore_index=True)
 
         if shuffle:
-            result.posterior = combined_posteriors.sample(len(combined_posteriors))
+            result.posterior = combined_posteriors.sample(
+                len(combined_posteriors), random_state=random.rng
+            )
         else:
             result.posterior = combined_posteriors
 
@@ -1952,11 +1956,7 @@ class ResultList(list):
         result.log_bayes_factor = result.log_evidence - result.log_noise_evidence
 
         # Propagate uncertainty in combined evidence
-        log_errs = [res.log_evidence_err for res in self if np.isfinite(res.log_evidence_err)]
-        if len(log_errs) > 0:
-            result.log_evidence_err = 0.5 * logsumexp(2 * np.array(log_errs), b=1. / len(self))
-        else:
-            result.log_evidence_err = np.nan
+        result.log_evidence_err = self._combined_log_evidence_err()
 
         # Combined posteriors with a weighting
         result_weights = np.exp(log_evidences - np.max(log_evidences))
@@ -1998,11 +1998,7 @@ class ResultList(list):
         result.log_bayes_factor = result.log_evidence - result.log_noise_evidence
 
         # Propagate uncertainty in combined evidence
-        log_errs = [res.log_evidence_err for res in self if np.isfinite(res.log_evidence_err)]
-        if len(log_errs) > 0:
-            result.log_evidence_err = 0.5 * logsumexp(2 * np.array(log_errs), b=1. / len(self))
-        else:
-            result.log_evidence_err = np.nan
+        result.log_evidence_err = self._combined_log_evidence_err()
 
         # Combined posteriors with a weighting
         posteriors = list()
@@ -2011,6 +2007,19 @@ class ResultList(list):
 
         return posteriors, result
 
+    def _combined_log_evidence_err(self):
+        """
+        The uncertainty of the log of the mean evidence, from the runs with a known uncertainty
+        """
+        from scipy.special import logsumexp
+        log_evidences = np.array([res.log_evidence for res in self], dtype=float)
+        log_errs = np.array([res.log_evidence_err for res in self], dtype=float)
+        known = np.isfinite(log_errs)
+        if not np.any(known):
+            return np.nan
+        weights = np.exp(log_evidences[known] - logsumexp(log_evidences[known]))
+        return np.sqrt(np.sum((weights * log_errs[known])**2))
+
     def check_nested_samples(self):
         for res in self:
             try:
@@ -2029,11 +2038,13 @@ class ResultList(list):
             raise ValueError(f"Input consistency_level {self.consistency_level} not understood")
 
     def check_consistent_priors(self):
+        priors = self[0].priors
         for res in self:
-            for p in self[0].priors.keys():
-                if not self[0].priors[p] == res.priors[p] or len(self[0].priors) != len(res.priors):
-                    msg = "Inconsistent priors between results"
-                    self._error_or_warning_consistency(msg)
+            if set(priors.keys()) != set(res.priors.keys()) or not all(
+                priors[p] == res.priors[p] for p in priors.keys()
+            ):
+                msg = "Inconsistent priors between results"
+                self._error_or_warning_consistency(msg)
 
     def check_consistent_parameters(self):
         if not np.all([set(self[0].search_parameter_keys) == set(res.search_parameter_keys) for res in self]):
-- 
2.43.0


From a97b86e258b2c9e3d1b7cd71dfede0b6071e07f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:05 +0000
Subject: [PATCH 35/43] fix: interrupted ensemble samplers save what they have
 and resume from it; signal handlers are restored on every exit

---
 bilby/core/sampler/base_sampler.py | 12 +++++++-----
 bilby/core/sampler/emcee.py        |  3 +++
 bilby/core/sampler/kombine.py      |  2 +-
 bilby/core/sampler/zeus.py         | 12 +++++++++++-
 4 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index f2c9cb4..9a3ea47 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -94,11 +94,13 @@ def signal_wrapper(method):
                 "This is likely the case if you are running on a Windows machine "
                 "and can be safely ignored."
             )
-        output = method(self, *args, **kwargs)
-        if _set:
-            signal.signal(signal.SIGTERM, old_term)
-            signal.signal(signal.SIGINT, old_int)
-            signal.signal(signal.SIGALRM, old_alarm)
+        try:
+            output = method(self, *args, **kwargs)
+        finally:
+            if _set:
+                signal.signal(signal.SIGTERM, old_term)
+                signal.signal(signal.SIGINT, old_int)
+                signal.signal(signal.SIGALRM, old_alarm)
         return output
 
     return wrapped
diff --git a/bilby/core/sampler/emcee.py b/bilby/core/sampler/emcee.py
index 8447a23..c9b63bd 100644
--- a/bilby/core/sampler/emcee.py
+++ b/bilby/core/sampler/emcee.py
@@ -284,6 +284,9 @@ class Emcee(MCMCSampler):
         Overwrites the stored sampler chain with one that is truncated
         to only the completed steps
         """
+        if not hasattr(self, "_sampler") or self._previous_iterations == 0:
+            # nothing has been sampled yet
+            return
         logger.info(
             f"Checkpointing sampler to file {self.checkpoint_info.sampler_file}"
         )
diff --git a/bilby/core/sampler/kombine.py b/bilby/core/sampler/kombine.py
index e351823..5495f36 100644
--- a/bilby/core/sampler/kombine.py
+++ b/bilby/core/sampler/kombine.py
@@ -225,6 +225,6 @@ class Kombine(Emcee):
     def _close_pool(self):
         from kombine import SerialPool
 
-        if isinstance(self.pool, SerialPool):
+        if isinstance(getattr(self, "pool", None), SerialPool):
             self.pool = None
         super(Kombine, self)._close_pool()
diff --git a/bilby/core/sampler/zeus.py b/bilby/core/sampler/zeus.py
index 65ea840..5143208 100644
--- a/bilby/core/sampler/zeus.py
+++ b/bilby/core/sampler/zeus.py
@@ -115,7 +115,16 @@ class Zeus(Emcee):
 
         return init_kwargs
 
+    @property
+    def _previous_iterations(self):
+        try:
+            return len(self.sampler.chain)
+        except AttributeError:
+            return 0
+
     def write_current_state(self):
+        if not hasattr(self, "_sampler"):
+            return
         self._sampler.distribute = map
         super(Zeus, self).write_current_state()
         self._sampler.distribute = getattr(self._sampler.pool, "map", map)
@@ -179,7 +188,8 @@ class Zeus(Emcee):
                 " Try increasing the number of steps."
             )
         # the flattened chain is ordered by walker and then by step
-        blobs = np.array(self.sampler.get_blobs(discard=self.nburn))
+        blobs = np.array(self.sampler.get_blobs())
+        blobs = blobs[self.nburn : len(self.sampler.chain)]
         blobs = blobs.swapaxes(0, 1).reshape((-1, 2))
         log_likelihoods, log_priors = blobs.T
         self.result.log_likelihood_evaluations = log_likelihoods
-- 
2.43.0


From 5ce69af72208089b204437f3b28542a2ac293513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:58 +0000
Subject: [PATCH 36/43] fix: sky position and time are written to the rows of a
 posterior whatever its index

---
 bilby/gw/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 6273546..15311ba 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -2555,7 +2555,7 @@ def generate_sky_frame_parameters(samples, likelihood):
         new_samples.append(likelihood.get_sky_frame_parameters())
     new_samples = DataFrame(new_samples)
     for key in new_samples:
-        samples[key] = new_samples[key]
+        samples[key] = new_samples[key].values
 
 
 def fill_sample(args):
-- 
2.43.0


From 8e4acc60f6b963049320dabdd2109be946e00d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:21 +0000
Subject: [PATCH 37/43] fix: time, calibration and phase marginalisation agree
 with the integral, and reconstruction follows the conditional posterior

---
 bilby/gw/conversion.py      |  5 ++-
 bilby/gw/likelihood/base.py | 86 +++++++++++++++++++++++--------------
 2 files changed, 56 insertions(+), 35 deletions(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 15311ba..d83720b 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -2505,7 +2505,8 @@ def generate_posterior_samples_from_marginalized_likelihood(
     ii = 0
     pbar = tqdm(total=len(samples), file=sys.stdout)
     while ii < len(samples):
-        if ii in cached_samples_dict:
+        # blocks of another size, e.g., from an earlier call, can not be reused
+        if len(cached_samples_dict.get(ii, [])) == min(block, len(samples) - ii):
             ii += block
             pbar.update(block)
             continue
@@ -2529,7 +2530,7 @@ def generate_posterior_samples_from_marginalized_likelihood(
         pool.join()
 
     new_samples = np.concatenate(
-        [np.array(val) for key, val in cached_samples_dict.items() if key != "_samples"]
+        [np.array(cached_samples_dict[ii]) for ii in range(0, len(samples), block)]
     )
 
     for ii, key in enumerate(marginalized_parameters):
diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index a9677ba..565ec69 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -3,6 +3,7 @@ import os
 import copy
 import zipfile
 import zlib
+from contextlib import contextmanager
 
 import attr
 import numpy as np
@@ -405,30 +406,47 @@ class GravitationalWaveTransient(Likelihood):
             self._noise_log_likelihood_value = self._calculate_noise_log_likelihood()
         return self._noise_log_likelihood_value
 
+    @contextmanager
+    def _evaluation_parameters(self):
+        """
+        Apply the time jitter to, and remove any reconstructed calibration from, the
+        parameters of a marginalized likelihood while it is evaluated.
+        """
+        original = {
+            key: self.parameters[key]
+            for key in ["geocent_time", "recalib_index"] if key in self.parameters
+        }
+        jitter = self.time_marginalization and self.jitter_time
+        if jitter:
+            self.parameters['geocent_time'] += self.parameters['time_jitter']
+        if self.calibration_marginalization:
+            self.parameters.pop('recalib_index', None)
+        try:
+            self.parameters.update(self.get_sky_frame_parameters())
+            yield
+        finally:
+            if jitter:
+                self.parameters['geocent_time'] = original['geocent_time']
+            if 'recalib_index' in original:
+                self.parameters['recalib_index'] = original['recalib_index']
+
     def log_likelihood_ratio(self):
         waveform_polarizations = \
             self.waveform_generator.frequency_domain_strain(self.parameters)
         if waveform_polarizations is None:
             return np.nan_to_num(-np.inf)
 
-        if self.time_marginalization and self.jitter_time:
-            self.parameters['geocent_time'] += self.parameters['time_jitter']
-
-        self.parameters.update(self.get_sky_frame_parameters())
+        with self._evaluation_parameters():
+            total_snrs = self._CalculatedSNRs()
 
-        total_snrs = self._CalculatedSNRs()
+            for interferometer in self.interferometers:
+                per_detector_snr = self.calculate_snrs(
+                    waveform_polarizations=waveform_polarizations,
+                    interferometer=interferometer)
 
-        for interferometer in self.interferometers:
-            per_detector_snr = self.calculate_snrs(
-                waveform_polarizations=waveform_polarizations,
-                interferometer=interferometer)
+                total_snrs += per_detector_snr
 
-            total_snrs += per_detector_snr
-
-        log_l = self.compute_log_likelihood_from_snrs(total_snrs)
-
-        if self.time_marginalization and self.jitter_time:
-            self.parameters['geocent_time'] -= self.parameters['time_jitter']
+            log_l = self.compute_log_likelihood_from_snrs(total_snrs)
 
         return float(log_l.real)
 
@@ -461,21 +479,14 @@ class GravitationalWaveTransient(Likelihood):
         waveform_polarizations = \
             self.waveform_generator.frequency_domain_strain(self.parameters)
 
-        if self.time_marginalization and self.jitter_time:
-            self.parameters['geocent_time'] += self.parameters['time_jitter']
+        with self._evaluation_parameters():
+            for interferometer in self.interferometers:
+                per_detector_snr = self.calculate_snrs(
+                    waveform_polarizations=waveform_polarizations,
+                    interferometer=interferometer)
 
-        self.parameters.update(self.get_sky_frame_parameters())
-
-        for interferometer in self.interferometers:
-            per_detector_snr = self.calculate_snrs(
-                waveform_polarizations=waveform_polarizations,
-                interferometer=interferometer)
-
-            self.parameters['{}_log_likelihood'.format(interferometer.name)] = \
-                self.compute_log_likelihood_from_snrs(per_detector_snr)
-
-        if self.time_marginalization and self.jitter_time:
-            self.parameters['geocent_time'] -= self.parameters['time_jitter']
+                self.parameters['{}_log_likelihood'.format(interferometer.name)] = \
+                    self.compute_log_likelihood_from_snrs(per_detector_snr)
 
         return self.parameters.copy()
 
@@ -606,10 +617,14 @@ class GravitationalWaveTransient(Likelihood):
                 signal_polarizations=signal_polarizations,
                 interferometer=ifo,
             )
+            if self.calibration_marginalization and 'recalib_index' in self.parameters:
+                signal[mask] *= self.calibration_draws[ifo.name][int(self.parameters['recalib_index'])]
             signal_long[:ifo_length] = signal
             data[:ifo_length] = np.conj(ifo.frequency_domain_strain)
             psd[:ifo_length][mask] = ifo.power_spectral_density_array[mask]
-            d_inner_h += np.fft.fft(signal_long * data / psd)[in_prior]
+            d_inner_h += (
+                4 / self.waveform_generator.duration * np.fft.fft(signal_long * data / psd)[in_prior]
+            )
             h_inner_h += ifo.optimal_snr_squared(signal=signal).real
 
         if self.distance_marginalization:
@@ -738,7 +753,7 @@ class GravitationalWaveTransient(Likelihood):
                 self.waveform_generator.frequency_domain_strain(self.parameters)
         d_inner_h, h_inner_h = self._calculate_inner_products(signal_polarizations)
 
-        phases = np.linspace(0, 2 * np.pi, 101)
+        phases = np.linspace(0, 2 * np.pi, 1001)
         phasor = np.exp(-2j * phases)
         phase_log_post = d_inner_h * phasor - h_inner_h / 2
         phase_post = np.exp(phase_log_post.real - max(phase_log_post.real))
@@ -779,6 +794,8 @@ class GravitationalWaveTransient(Likelihood):
             d_inner_h_tc_array = d_inner_h_tc_array[time_mask]
 
         if self.distance_marginalization:
+            if self.calibration_marginalization:
+                h_inner_h = h_inner_h[:, np.newaxis]
             log_l_tc_array = self.distance_marginalized_likelihood(
                 d_inner_h=d_inner_h_tc_array, h_inner_h=h_inner_h)
         elif self.phase_marginalization:
@@ -792,7 +809,10 @@ class GravitationalWaveTransient(Likelihood):
         return logsumexp(log_l_tc_array, b=time_prior_array, axis=-1)
 
     def get_calibration_log_likelihoods(self, signal_polarizations=None):
-        self.parameters.update(self.get_sky_frame_parameters())
+        with self._evaluation_parameters():
+            return self._get_calibration_log_likelihoods(signal_polarizations)
+
+    def _get_calibration_log_likelihoods(self, signal_polarizations=None):
         if signal_polarizations is None:
             signal_polarizations = \
                 self.waveform_generator.frequency_domain_strain(self.parameters)
@@ -1002,7 +1022,7 @@ class GravitationalWaveTransient(Likelihood):
             self.interferometers.start_time + np.linspace(
                 0, self.interferometers.duration,
                 int(self.interferometers.duration / 2 *
-                    self.waveform_generator.sampling_frequency + 1))[1:]
+                    self.waveform_generator.sampling_frequency + 1))[:-1]
         self.time_prior_array = \
             self.priors['geocent_time'].prob(self._times) * self._delta_tc
 
-- 
2.43.0


From 478834e60bc0228e82e96140700ba2e8a3664922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:37 +0000
Subject: [PATCH 38/43] fix: a stored result is found in every format and
 reused only for the same priors; clean and conversion apply once

---
 bilby/bilby_mcmc/sampler.py        |  7 +--
 bilby/core/sampler/__init__.py     | 35 ++++++++++----
 bilby/core/sampler/base_sampler.py | 76 ++++++++++++++++++------------
 3 files changed, 75 insertions(+), 43 deletions(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index c8ccf25..4cdf489 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -264,9 +264,10 @@ class Bilby_MCMC(MCMCSampler):
 
     @staticmethod
     def add_data_to_result(result, ptsampler, outdir, label, make_plots):
-        result.samples = ptsampler.samples
-        result.log_likelihood_evaluations = result.samples[LOGLKEY].to_numpy()
-        result.log_prior_evaluations = result.samples[LOGPKEY].to_numpy()
+        samples = ptsampler.samples
+        result.samples = samples[list(result.search_parameter_keys)].to_numpy()
+        result.log_likelihood_evaluations = samples[LOGLKEY].to_numpy()
+        result.log_prior_evaluations = samples[LOGPKEY].to_numpy()
         ptsampler.compute_evidence(
             outdir=outdir,
             label=label,
diff --git a/bilby/core/sampler/__init__.py b/bilby/core/sampler/__init__.py
index 254d7b4..d6b760e 100644
--- a/bilby/core/sampler/__init__.py
+++ b/bilby/core/sampler/__init__.py
@@ -1,4 +1,5 @@
 import datetime
+import functools
 import inspect
 import sys
 
@@ -140,6 +141,21 @@ if command_line_args.sampler_help:
     sys.exit()
 
 
+def _restore_clean(function):
+    """Make sure that the `clean` option of one call does not apply to others"""
+
+    @functools.wraps(function)
+    def wrapper(*args, **kwargs):
+        clean = command_line_args.clean
+        try:
+            return function(*args, **kwargs)
+        finally:
+            command_line_args.clean = clean
+
+    return wrapper
+
+
+@_restore_clean
 def run_sampler(
     likelihood,
     priors=None,
@@ -222,7 +238,7 @@ def run_sampler(
 
     logger.info(f"Running for label '{label}', output will be saved to '{outdir}'")
 
-    if clean:
+    if clean is not None:
         command_line_args.clean = clean
     if command_line_args.clean:
         kwargs["resume"] = False
@@ -246,6 +262,8 @@ def run_sampler(
     # Generate the meta-data if not given and append the likelihood meta_data
     if meta_data is None:
         meta_data = dict()
+    else:
+        meta_data = dict(meta_data)
     likelihood.label = label
     likelihood.outdir = outdir
     meta_data["likelihood"] = likelihood.meta_data
@@ -275,7 +293,7 @@ def run_sampler(
             **kwargs,
         )
     elif inspect.isclass(sampler):
-        sampler = sampler.__init__(
+        sampler = sampler(
             likelihood,
             priors=priors,
             outdir=outdir,
@@ -284,6 +302,7 @@ def run_sampler(
             plot=plot,
             injection_parameters=injection_parameters,
             meta_data=meta_data,
+            result_class=result_class,
             npool=npool,
             **kwargs,
         )
@@ -323,20 +342,16 @@ def run_sampler(
             result.log_noise_evidence = likelihood.noise_log_likelihood()
             result.log_bayes_factor = result.log_evidence - result.log_noise_evidence
 
-        if None not in [result.injection_parameters, conversion_function]:
-            result.injection_parameters = conversion_function(
-                result.injection_parameters
-            )
-
         # Initial save of the sampler in case of failure in samples_to_posterior
         if save:
             result.save_to_file(extension=save, gzip=gzip, outdir=outdir)
 
-    if None not in [result.injection_parameters, conversion_function]:
-        result.injection_parameters = conversion_function(result.injection_parameters)
-
     # Check if the posterior has already been created
     if getattr(result, "_posterior", None) is None:
+        if None not in [result.injection_parameters, conversion_function]:
+            result.injection_parameters = conversion_function(
+                result.injection_parameters
+            )
         result.samples_to_posterior(
             likelihood=likelihood,
             priors=result.priors,
diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 9a3ea47..0ce201e 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -11,7 +11,7 @@ import numpy as np
 from pandas import DataFrame
 
 from ..prior import Constraint, DeltaFunction, Prior, PriorDict
-from ..result import Result, read_in_result
+from ..result import Result, read_in_result, result_file_name
 from ..utils import (
     Counter,
     check_directory_exists_and_if_not_mkdir,
@@ -661,38 +661,54 @@ class Sampler(object):
             self.cached_result = None
             return
 
-        try:
-            self.cached_result = read_in_result(
-                outdir=self.outdir, label=self.label, result_class=result_class
-            )
-        except IOError:
-            self.cached_result = None
-
-        if command_line_args.use_cached:
-            logger.debug("Command line argument cached given, no cache check performed")
+        self.cached_result = None
+        for filename in self._existing_result_files():
+            try:
+                cached_result = read_in_result(
+                    filename=filename, result_class=result_class
+                )
+            except IOError:
+                continue
+            if command_line_args.use_cached:
+                logger.debug(
+                    "Command line argument cached given, no cache check performed"
+                )
+            elif not self._cached_result_matches(cached_result):
+                continue
+            self.cached_result = cached_result
             return
 
+    def _existing_result_files(self):
+        """The result files of this run in any format, the latest first"""
+        filenames = [
+            result_file_name(self.outdir, self.label, extension, gzip)
+            for extension, gzip in [
+                ("json", False),
+                ("json", True),
+                ("hdf5", False),
+                ("pkl", False),
+            ]
+        ]
+        filenames = [filename for filename in filenames if os.path.isfile(filename)]
+        return sorted(filenames, key=os.path.getmtime, reverse=True)
+
+    def _cached_result_matches(self, cached_result):
+        """Check if a stored result is one of the requested parameters, priors and likelihood"""
         logger.debug("Checking cached data")
-        if self.cached_result:
-            check_keys = ["search_parameter_keys", "fixed_parameter_keys"]
-            use_cache = True
-            for key in check_keys:
-                if (
-                    self.cached_result._check_attribute_match_to_other_object(key, self)
-                    is False
-                ):
-                    logger.debug(f"Cached value {key} is unmatched")
-                    use_cache = False
-            try:
-                # Recursive check the dictionaries allowing for numpy arrays
-                np.testing.assert_equal(
-                    self.meta_data["likelihood"],
-                    self.cached_result.meta_data["likelihood"],
-                )
-            except AssertionError:
-                use_cache = False
-            if use_cache is False:
-                self.cached_result = None
+        for key in ["search_parameter_keys", "fixed_parameter_keys", "priors"]:
+            if getattr(cached_result, key) != getattr(self, key):
+                logger.debug(f"Cached value {key} is unmatched")
+                return False
+        try:
+            # Recursive check the dictionaries allowing for numpy arrays
+            np.testing.assert_equal(
+                (self.meta_data or dict()).get("likelihood"),
+                (cached_result.meta_data or dict()).get("likelihood"),
+            )
+        except AssertionError:
+            logger.debug("Cached likelihood meta data is unmatched")
+            return False
+        return True
 
     def _log_summary_for_sampler(self):
         """Print a summary of the sampler used and its kwargs"""
-- 
2.43.0


From 2722afca6fdb676fb444aad7f7d2d8b9494ce2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:13 +0000
Subject: [PATCH 39/43] fix: grids keep conditional priors, accept fixed
 parameters and lists of points, and can be saved after being read

---
 bilby/core/grid.py | 55 ++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/bilby/core/grid.py b/bilby/core/grid.py
index f83d0cc..1525157 100644
--- a/bilby/core/grid.py
+++ b/bilby/core/grid.py
@@ -3,7 +3,7 @@ import os
 
 import numpy as np
 
-from .prior import Prior, PriorDict
+from .prior import Constraint, DeltaFunction, Prior, PriorDict
 from .utils import (
     logtrapzexp, check_directory_exists_and_if_not_mkdir, logger,
     BilbyJsonEncoder, load_json, replace_file
@@ -62,9 +62,13 @@ class Grid(object):
         if priors is None:
             priors = dict()
         self.likelihood = likelihood
-        self.priors = PriorDict(priors)
-        self.n_dims = len(priors)
-        self.parameter_names = list(self.priors.keys())
+        if isinstance(priors, PriorDict):
+            self.priors = priors
+        else:
+            self.priors = PriorDict(priors)
+        self.parameter_names = [
+            key for key in self.priors if not isinstance(self.priors[key], Constraint)]
+        self.n_dims = len(self.parameter_names)
 
         self.sample_points = dict()
         self._get_sample_points(grid_size)
@@ -74,6 +78,10 @@ class Grid(object):
                 {key: self.mesh_grid[i].flatten() for i, key in
                  enumerate(self.parameter_names)}, axis=0).reshape(
                 self.mesh_grid[0].shape)
+            # fixed parameters do not contribute to the integral over the grid
+            for key in self.parameter_names:
+                if isinstance(self.priors[key], DeltaFunction):
+                    self._ln_prior -= self.priors[key].ln_prob(self.priors[key].peak)
         self._ln_likelihood = None
 
         # evaluate the likelihood on the grid points
@@ -83,11 +91,11 @@ class Grid(object):
         self.save = save
         self.label = None
         self.outdir = None
+        if isinstance(label, str):
+            self.label = label
+        if isinstance(outdir, str):
+            self.outdir = os.path.abspath(outdir)
         if self.save:
-            if isinstance(label, str):
-                self.label = label
-            if isinstance(outdir, str):
-                self.outdir = os.path.abspath(outdir)
             self.save_to_file(gzip=gzip)
 
     @property
@@ -304,41 +312,36 @@ class Grid(object):
 
     def _evaluate(self):
         self._ln_likelihood = np.empty(self.mesh_grid[0].shape)
-        self._evaluate_recursion(0)
+        self._evaluate_recursion(0, ())
         self.ln_noise_evidence = self.likelihood.noise_log_likelihood()
 
-    def _evaluate_recursion(self, dimension):
+    def _evaluate_recursion(self, dimension, current_point):
         if dimension == self.n_dims:
-            current_point = tuple([[int(np.where(
-                self.likelihood.parameters[name] ==
-                self.sample_points[name])[0])] for name in self.parameter_names])
             self._ln_likelihood[current_point] = self.likelihood.log_likelihood()
         else:
             name = self.parameter_names[dimension]
             for ii in range(self._ln_likelihood.shape[dimension]):
                 self.likelihood.parameters[name] = self.sample_points[name][ii]
-                self._evaluate_recursion(dimension + 1)
+                self._evaluate_recursion(dimension + 1, current_point + (ii,))
 
     def _get_sample_points(self, grid_size):
         for ii, key in enumerate(self.parameter_names):
             if isinstance(self.priors[key], Prior):
                 if isinstance(grid_size, int):
-                    self.sample_points[key] = self.priors[key].rescale(
-                        np.linspace(0, 1, grid_size))
+                    points = grid_size
                 elif isinstance(grid_size, list):
-                    if isinstance(grid_size[ii], int):
-                        self.sample_points[key] = self.priors[key].rescale(
-                            np.linspace(0, 1, grid_size[ii]))
-                    else:
-                        self.sample_points[key] = grid_size[ii]
+                    points = grid_size[ii]
                 elif isinstance(grid_size, dict):
-                    if isinstance(grid_size[key], int):
-                        self.sample_points[key] = self.priors[key].rescale(
-                            np.linspace(0, 1, grid_size[key]))
-                    else:
-                        self.sample_points[key] = grid_size[key]
+                    points = grid_size[key]
                 else:
                     raise TypeError("Unrecognized 'grid_size' type")
+                if isinstance(points, int) and isinstance(self.priors[key], DeltaFunction):
+                    self.sample_points[key] = np.array([self.priors[key].peak])
+                elif isinstance(points, int):
+                    self.sample_points[key] = self.priors[key].rescale(
+                        np.linspace(0, 1, points))
+                else:
+                    self.sample_points[key] = np.asarray(points)
 
         # set the mesh of points
         self.mesh_grid = np.meshgrid(
-- 
2.43.0


From 66a3ab77f90f34d7d800be11d1f3cbbe45e34803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:10 +0000
Subject: [PATCH 40/43] fix: sampler settings given by the user are kept,
 whatever their name

---
 bilby/bilby_mcmc/sampler.py        |  7 +++----
 bilby/core/sampler/base_sampler.py |  9 ++++++---
 bilby/core/sampler/cpnest.py       |  2 ++
 bilby/core/sampler/dnest4.py       | 18 ++++++++++++++++--
 bilby/core/sampler/dynesty.py      |  2 ++
 bilby/core/sampler/polychord.py    |  2 +-
 bilby/core/sampler/pymultinest.py  |  4 +++-
 bilby/core/sampler/ultranest.py    |  6 ++++--
 bilby/core/sampler/zeus.py         |  3 ++-
 9 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index 4cdf489..cbfad7d 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -230,10 +230,9 @@ class Bilby_MCMC(MCMCSampler):
             for equiv in ["print_dt", "print_update"]:
                 if equiv in kwargs:
                     kwargs["printdt"] = kwargs.pop(equiv)
-        if "npool" not in kwargs:
-            for equiv in self.npool_equiv_kwargs:
-                if equiv in kwargs:
-                    kwargs["npool"] = kwargs.pop(equiv)
+        for equiv in self.npool_equiv_kwargs:
+            if equiv in kwargs:
+                self._npool = kwargs.pop(equiv)
         if "check_point_delta_t" not in kwargs:
             for equiv in self.check_point_equiv_kwargs:
                 if equiv in kwargs:
diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 0ce201e..9528691 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -1,3 +1,4 @@
+import copy
 import datetime
 import os
 import shutil
@@ -303,7 +304,8 @@ class Sampler(object):
 
     @kwargs.setter
     def kwargs(self, kwargs):
-        self._kwargs = self.default_kwargs.copy()
+        self._kwargs = copy.deepcopy(self.default_kwargs)
+        kwargs = dict(kwargs)
         self._translate_kwargs(kwargs)
         self._kwargs.update(kwargs)
         self._verify_kwargs_against_default_kwargs()
@@ -964,6 +966,9 @@ class _TemporaryFileSamplerMixin:
     short_name = ""
 
     def __init__(self, temporary_directory, **kwargs):
+        # the directory is set while checking the settings
+        self._outputfiles_basename = None
+        self._temporary_outputfiles_basename = None
         super(_TemporaryFileSamplerMixin, self).__init__(**kwargs)
         try:
             from mpi4py import MPI
@@ -978,8 +983,6 @@ class _TemporaryFileSamplerMixin:
                 "will run in original directory"
             )
         self.use_temporary_directory = temporary_directory and not using_mpi
-        self._outputfiles_basename = None
-        self._temporary_outputfiles_basename = None
 
     def _check_and_load_sampling_time_file(self):
         if os.path.exists(self.time_file_path):
diff --git a/bilby/core/sampler/cpnest.py b/bilby/core/sampler/cpnest.py
index e777ebc..0d50d8e 100644
--- a/bilby/core/sampler/cpnest.py
+++ b/bilby/core/sampler/cpnest.py
@@ -67,6 +67,8 @@ class Cpnest(NestedSampler):
             for equiv in self.npool_equiv_kwargs:
                 if equiv in kwargs:
                     kwargs["nthreads"] = kwargs.pop(equiv)
+            if "nthreads" not in kwargs:
+                kwargs["nthreads"] = self._npool
 
         if "seed" not in kwargs:
             logger.warning("No seed provided, cpnest will use 1234.")
diff --git a/bilby/core/sampler/dnest4.py b/bilby/core/sampler/dnest4.py
index 87717f6..b0f33f1 100644
--- a/bilby/core/sampler/dnest4.py
+++ b/bilby/core/sampler/dnest4.py
@@ -198,7 +198,15 @@ class DNest4(_TemporaryFileSamplerMixin, NestedSampler):
             return dnest4.backends.MemoryBackend()
 
     def _set_dnest4_kwargs(self):
-        dnest4_keys = ["num_steps", "new_level_interval", "lam", "beta", "seed"]
+        dnest4_keys = [
+            "num_steps",
+            "num_per_step",
+            "thread_steps",
+            "new_level_interval",
+            "lam",
+            "beta",
+            "seed",
+        ]
         self.dnest4_kwargs = {key: self.kwargs[key] for key in dnest4_keys}
 
     @signal_wrapper
@@ -246,7 +254,13 @@ class DNest4(_TemporaryFileSamplerMixin, NestedSampler):
             for equiv in self.walks_equiv_kwargs:
                 if equiv in kwargs:
                     kwargs["num_steps"] = kwargs.pop(equiv)
+        if "num_particles" not in kwargs:
+            for equiv in self.npoints_equiv_kwargs:
+                if equiv in kwargs:
+                    kwargs["num_particles"] = kwargs.pop(equiv)
 
     def _verify_kwargs_against_default_kwargs(self):
-        self.outputfiles_basename = self.kwargs.pop("outputfiles_basename", None)
+        # the directory is already known when checking again before the run
+        if "outputfiles_basename" in self.kwargs:
+            self.outputfiles_basename = self.kwargs.pop("outputfiles_basename")
         super(DNest4, self)._verify_kwargs_against_default_kwargs()
diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index 17b12e1..376c3c2 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -407,6 +407,8 @@ class Dynesty(NestedSampler):
         # The periodic kwargs passed into dynesty allows the parameters to
         # wander out of the bounds, this includes both periodic and reflective.
         # these are then handled in the prior_transform
+        if self.kwargs[key] is not None:
+            return
         selected = list()
         for ii, param in enumerate(self.search_parameter_keys):
             if self.priors[param].boundary == key:
diff --git a/bilby/core/sampler/polychord.py b/bilby/core/sampler/polychord.py
index 7c08867..8299483 100644
--- a/bilby/core/sampler/polychord.py
+++ b/bilby/core/sampler/polychord.py
@@ -120,7 +120,7 @@ class PyPolyChord(NestedSampler):
         kwargs = super()._translate_kwargs(kwargs)
         if "nlive" not in kwargs:
             for equiv in self.npoints_equiv_kwargs:
-                if equiv in kwargs:
+                if equiv in kwargs and equiv not in self.default_kwargs:
                     kwargs["nlive"] = kwargs.pop(equiv)
 
     def log_likelihood(self, theta):
diff --git a/bilby/core/sampler/pymultinest.py b/bilby/core/sampler/pymultinest.py
index 0a9bb0a..58ae133 100644
--- a/bilby/core/sampler/pymultinest.py
+++ b/bilby/core/sampler/pymultinest.py
@@ -102,7 +102,9 @@ class Pymultinest(_TemporaryFileSamplerMixin, NestedSampler):
     def _verify_kwargs_against_default_kwargs(self):
         """Check the kwargs"""
 
-        self.outputfiles_basename = self.kwargs.pop("outputfiles_basename", None)
+        # the directory is already known when checking again before the run
+        if "outputfiles_basename" in self.kwargs:
+            self.outputfiles_basename = self.kwargs.pop("outputfiles_basename")
 
         # for PyMultiNest >=2.9 the n_params kwarg cannot be None
         if self.kwargs["n_params"] is None:
diff --git a/bilby/core/sampler/ultranest.py b/bilby/core/sampler/ultranest.py
index 6aacfa9..10ae880 100644
--- a/bilby/core/sampler/ultranest.py
+++ b/bilby/core/sampler/ultranest.py
@@ -115,14 +115,16 @@ class Ultranest(_TemporaryFileSamplerMixin, NestedSampler):
             kwargs["show_status"] = kwargs.pop("verbose")
         resume = kwargs.get("resume", False)
         if resume is True:
-            kwargs["resume"] = "overwrite"
+            kwargs["resume"] = "resume"
         elif resume is False:
             kwargs["resume"] = "overwrite"
 
     def _verify_kwargs_against_default_kwargs(self):
         """Check the kwargs"""
 
-        self.outputfiles_basename = self.kwargs.pop("log_dir", None)
+        # the directory is already known when checking again before the run
+        if "log_dir" in self.kwargs:
+            self.outputfiles_basename = self.kwargs.pop("log_dir")
         if self.kwargs["viz_callback"] is None:
             self.kwargs["viz_callback"] = self._viz_callback
 
diff --git a/bilby/core/sampler/zeus.py b/bilby/core/sampler/zeus.py
index 5143208..dc3a9f9 100644
--- a/bilby/core/sampler/zeus.py
+++ b/bilby/core/sampler/zeus.py
@@ -158,7 +158,8 @@ class Zeus(Emcee):
         iterations = sampler_function_kwargs.pop("iterations")
         iterations -= self._previous_iterations
 
-        sampler_function_kwargs["start"] = self.pos0
+        if sampler_function_kwargs["start"] is None or self._previous_iterations > 0:
+            sampler_function_kwargs["start"] = self.pos0
 
         # main iteration loop
         for sample in self.sampler.sample(
-- 
2.43.0


From 5274218bb6fd9cc09264dbaa6a39f545ed399807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:15 +0000
Subject: [PATCH 41/43] fix: nested samplers given conditional, joint and
 non-uniform priors explore those priors

---
 bilby/core/prior/joint.py    |  8 ++++----
 bilby/core/sampler/dnest4.py | 19 +++++++++++++++++--
 bilby/core/sampler/nessai.py | 15 +++++++++++----
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index 1c487c3..6c6afd6 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -888,6 +888,9 @@ class JointPrior(Prior):
                         )
 
             lnp = self.dist.ln_prob(np.asarray(values).T)
+            if np.ndim(val) > 0:
+                # a single point given as an array
+                lnp = np.atleast_1d(lnp)
 
             # reset the requested parameters
             self.dist.reset_request()
@@ -903,10 +906,7 @@ class JointPrior(Prior):
                 except Exception as e:
                     raise TypeError("Invalid type for ln_prob: {}".format(e))
 
-                if len(val) == 1:
-                    return 0.0
-                else:
-                    return np.zeros_like(val)
+                return np.zeros(len(val))
 
     def prob(self, val):
         """Return the prior probability of val
diff --git a/bilby/core/sampler/dnest4.py b/bilby/core/sampler/dnest4.py
index b0f33f1..f116762 100644
--- a/bilby/core/sampler/dnest4.py
+++ b/bilby/core/sampler/dnest4.py
@@ -9,7 +9,8 @@ from .base_sampler import NestedSampler, _TemporaryFileSamplerMixin, signal_wrap
 
 class _DNest4Model(object):
     def __init__(
-        self, log_likelihood_func, from_prior_func, widths, centers, highs, lows
+        self, log_likelihood_func, from_prior_func, widths, centers, highs, lows,
+        log_prior_func=None,
     ):
         """Initialize the DNest4 model.
         Args:
@@ -21,7 +22,12 @@ class _DNest4Model(object):
                 The approximate widths of the prior distrbutions.
             centers: array_like
                 The approximate center points of the prior distributions.
+            log_prior_func: function, optional
+                The log prior function, the moves are accepted with the ratio
+                of the prior at the new and old points. If not given the prior
+                is assumed to be uniform.
         """
+        self._log_prior = log_prior_func
         self._log_likelihood = log_likelihood_func
         self._from_prior = from_prior_func
         self._widths = widths
@@ -43,6 +49,9 @@ class _DNest4Model(object):
         """The perturb function to perform Monte Carlo trial moves."""
         from ..utils.random import rng
 
+        if self._log_prior is not None:
+            old_log_prior = self._log_prior(coords)
+
         idx = rng.integers(self._n_dim)
 
         coords[idx] += self._widths[idx] * (rng.uniform(size=1) - 0.5)
@@ -51,7 +60,12 @@ class _DNest4Model(object):
 
         coords[idx] = self.wrap(coords[idx], (cc - 0.5 * cw), cc + 0.5 * cw)
 
-        return 0.0
+        if self._log_prior is None:
+            return 0.0
+        new_log_prior = self._log_prior(coords)
+        if np.isinf(new_log_prior):
+            return -np.inf
+        return float(new_log_prior - old_log_prior)
 
     @staticmethod
     def wrap(x, minimum, maximum):
@@ -185,6 +199,7 @@ class DNest4(_TemporaryFileSamplerMixin, NestedSampler):
             self._centers,
             self._highs,
             self._lows,
+            log_prior_func=self.log_prior,
         )
 
     def _set_backend(self):
diff --git a/bilby/core/sampler/nessai.py b/bilby/core/sampler/nessai.py
index 440e4a0..76e203a 100644
--- a/bilby/core/sampler/nessai.py
+++ b/bilby/core/sampler/nessai.py
@@ -143,6 +143,11 @@ class Nessai(NestedSampler):
                 return self.log_prior(theta)
 
             def _update_bounds(self):
+                for key in self.names:
+                    # the limits of conditional priors are otherwise those of
+                    # the last point they were evaluated at
+                    if hasattr(self.priors[key], "reset_to_reference_parameters"):
+                        self.priors[key].reset_to_reference_parameters()
                 self.bounds = {
                     key: [self.priors[key].minimum, self.priors[key].maximum]
                     for key in self.names
@@ -161,10 +166,12 @@ class Nessai(NestedSampler):
             @staticmethod
             def from_unit_hypercube(x):
                 """Map samples from the unit hypercube to the prior."""
-                theta = {}
-                for n in self._search_parameter_keys:
-                    theta[n] = self.priors[n].rescale(x[n])
-                return dict_to_live_points(theta)
+                keys = self._search_parameter_keys
+                samples = np.array([
+                    self.priors.rescale(keys, [point[n].item() for n in keys])
+                    for point in np.atleast_1d(x)
+                ])
+                return dict_to_live_points(dict(zip(keys, samples.T)))
 
             @staticmethod
             def to_unit_hypercube(x):
-- 
2.43.0


From a39514594a5bded52bc1061f188a6e0a809c9746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:14 +0000
Subject: [PATCH 42/43] fix: MCMC moves are reversible and stay with the
 parameters they own

---
 bilby/bilby_mcmc/proposals.py       | 29 +++++++++++++++++------------
 bilby/core/sampler/dynesty_utils.py |  2 +-
 bilby/core/sampler/proposal.py      |  2 +-
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/bilby/bilby_mcmc/proposals.py b/bilby/bilby_mcmc/proposals.py
index 6100d75..0f96fe6 100644
--- a/bilby/bilby_mcmc/proposals.py
+++ b/bilby/bilby_mcmc/proposals.py
@@ -345,14 +345,14 @@ class UniformProposal(BaseProposal):
     def propose(self, chain):
         sample = chain.current_sample
         for key in self.parameters:
-            width = self.prior_width_dict[key]
-            if np.isinf(width) is False:
-                sample[key] = random.rng.uniform(
-                    self.prior_minimum_dict[key], self.prior_maximum_dict[key]
-                )
-            else:
+            minimum = self.prior_minimum_dict[key]
+            maximum = self.prior_maximum_dict[key]
+            if np.isinf(self.prior_width_dict[key]):
                 # Unable to generate a uniform sample on infinite support
                 pass
+            elif minimum <= sample[key] <= maximum:
+                # from outside of this range the reverse move is impossible
+                sample[key] = random.rng.uniform(minimum, maximum)
         log_factor = 0
         return sample, log_factor
 
@@ -480,7 +480,7 @@ class DensityEstimateProposal(BaseProposal):
         self.next_refit_time *= self.fit_multiplier
 
         # Verify training hasn't overconstrained
-        new_draws = np.atleast_2d(self._sample(1000))
+        new_draws = np.reshape(self._sample(1000), (-1, self.ndim))
         verification_dataset = np.array(verification_dataset)
         fail_parameters = []
         for ii, key in enumerate(self.parameters):
@@ -541,7 +541,7 @@ class KDEProposal(DensityEstimateProposal):
         return self.density.logpdf(point)[0]
 
     def _sample(self, nsamples=None):
-        return np.atleast_1d(np.squeeze(self.density.resample(nsamples)))
+        return np.atleast_1d(np.squeeze(self.density.resample(nsamples).T))
 
 
 class GMMProposal(DensityEstimateProposal):
@@ -559,7 +559,7 @@ class GMMProposal(DensityEstimateProposal):
         return np.squeeze(self.density.score_samples(np.atleast_2d(point)))
 
     def _sample(self, nsamples=None):
-        return np.squeeze(self.density.sample(n_samples=nsamples)[0])
+        return np.atleast_1d(np.squeeze(self.density.sample(n_samples=nsamples)[0]))
 
     @staticmethod
     def check_dependencies(warn=True):
@@ -778,6 +778,8 @@ class FixedJumpProposal(BaseProposal):
     def propose(self, chain):
         sample = chain.current_sample
         for key, jump in self.jumps.items():
+            if key not in self.parameters:
+                continue
             sign = random.rng.integers(2) * 2 - 1
             sample[key] += sign * jump + self.epsilon * self.prior_width_dict[key]
         log_factor = 0
@@ -898,10 +900,13 @@ class CorrelatedPolarisationPhaseJump(BaseGravitationalWaveTransientProposal):
         beta = sample["psi"] - phase
 
         draw = random.rng.random()
+        # psi and phase are only both unchanged after a full turn of 4 pi, shifts
+        # of up to half a turn in either direction are as likely as their reverse
+        shift = 4.0 * np.pi * (random.rng.random() - 0.5)
         if draw < 0.5:
-            alpha = 3.0 * np.pi * random.rng.random()
+            alpha += shift
         else:
-            beta = 3.0 * np.pi * random.rng.random() - 2 * np.pi
+            beta += shift
 
         # Update
         sample["psi"] = (alpha + beta) * 0.5
@@ -1230,5 +1235,5 @@ def remove_proposals_using_string(plist, string):
 
     for element in string.split("no")[1:]:
         if element in mapping:
-            plist = [p for p in plist if isinstance(p, mapping[element]) is False]
+            plist = [p for p in plist if type(p) is not mapping[element]]
     return plist
diff --git a/bilby/core/sampler/dynesty_utils.py b/bilby/core/sampler/dynesty_utils.py
index fb7b8d2..6d1d184 100644
--- a/bilby/core/sampler/dynesty_utils.py
+++ b/bilby/core/sampler/dynesty_utils.py
@@ -531,7 +531,7 @@ def _get_proposal_kwargs(args):
             )
         live = np.unique(live, axis=0)
         matches = np.where(np.equal(current_u, live).all(axis=1))[0]
-        np.delete(live, matches, 0)
+        live = np.delete(live, matches, 0)
 
     if isinstance(proposals, (list, set, tuple)):
         proposals = rstate.choice(proposals, int(walks))
diff --git a/bilby/core/sampler/proposal.py b/bilby/core/sampler/proposal.py
index d23d19b..1db745c 100644
--- a/bilby/core/sampler/proposal.py
+++ b/bilby/core/sampler/proposal.py
@@ -83,7 +83,7 @@ class JumpProposal(object):
                     sample[key] = (
                         2 * self.priors[key].maximum - self.priors[key].minimum - delta
                     )
-                elif delta < r:
+                else:
                     sample[key] = self.priors[key].minimum + delta
         return sample
 
-- 
2.43.0


From 37809c9b9060d1c8cf77e7cac52e3dd87894db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:21 +0000
Subject: [PATCH 43/43] fix: tempered samples are counted once, keep their
 likelihood convention and their temperature; stretch moves are not folded at
 boundaries

---
 bilby/bilby_mcmc/proposals.py | 10 ++++++++++
 bilby/bilby_mcmc/sampler.py   | 12 ++++--------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/bilby/bilby_mcmc/proposals.py b/bilby/bilby_mcmc/proposals.py
index 0f96fe6..5d6211a 100644
--- a/bilby/bilby_mcmc/proposals.py
+++ b/bilby/bilby_mcmc/proposals.py
@@ -995,6 +995,11 @@ class StretchProposal(BaseProposal):
         super(StretchProposal, self).__init__(priors, weight, subset)
         self.scale = scale
 
+    def apply_boundaries(self, point):
+        # A stretch folded at a boundary is not reversible: points outside the
+        # prior are left there, and are rejected
+        return point
+
     def propose(self, chain):
         sample = chain.current_sample
 
@@ -1047,6 +1052,11 @@ class EnsembleStretch(EnsembleProposal):
         super(EnsembleStretch, self).__init__(priors, weight)
         self.scale = scale
 
+    def apply_boundaries(self, point):
+        # A stretch folded at a boundary is not reversible: points outside the
+        # prior are left there, and are rejected
+        return point
+
     def propose(self, chain, chain_complement):
         sample = chain.current_sample
         completement = chain_complement[
diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index cbfad7d..9fe8ce5 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -768,7 +768,7 @@ class BilbyPTMCMCSampler(object):
         for sampler in self.zerotemp_sampler_list:
             nsamples_list.append(sampler.nsamples)
         if self.pt_rejection_sample:
-            for samp in self.sampler_list[1:]:
+            for samp in self.tempered_sampler_list:
                 nsamples_list.append(
                     len(samp.rejection_sample_zero_temperature_samples())
                 )
@@ -924,6 +924,8 @@ class BilbyPTMCMCSampler(object):
             betas[1:-1] = 1 / (np.cumsum(deltaTs) + 1 / betas[0])
             for sampler, beta in zip(sampler_list, betas):
                 sampler.beta = beta
+                # Samples drawn at the previous temperature are not used
+                sampler.chain.minimum_index_adapt = sampler.chain.position
 
     @property
     def ln_z(self):
@@ -1345,15 +1347,9 @@ class BilbyMCMCSampler(object):
             )
             return hot_samples
 
-        # Pull out log likelihood
+        # Pull out log likelihood: a constant offset (use_ratio) cancels in the weights
         zerotemp_logl = hot_samples[LOGLKEY]
 
-        # Revert to true likelihood if needed
-        if _sampling_convenience_dump.use_ratio:
-            zerotemp_logl += (
-                _sampling_convenience_dump.likelihood.noise_log_likelihood()
-            )
-
         # Calculate normalised weights
         log_weights = (1 - beta) * zerotemp_logl
         max_weight = np.max(log_weights)
-- 
2.43.0

