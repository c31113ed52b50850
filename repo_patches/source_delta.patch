From d38efdb428bbea66d4c90c4d18f1b9138b79796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 01/17] fix: redraw Sobol innovations that contain -inf

The guard only looked at the maximum, so a scrambled point of exactly 0 (quantile -inf) was handed out as an innovation.
---
 src/finoptions/monte_carlo_options/mc_innovations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/monte_carlo_options/mc_innovations.py b/src/finoptions/monte_carlo_options/mc_innovations.py
index a1e356e..d2d6793 100644
--- a/src/finoptions/monte_carlo_options/mc_innovations.py
+++ b/src/finoptions/monte_carlo_options/mc_innovations.py
@@ -35,7 +35,7 @@ class NormalSobolInnovations(Innovations):
         sobol = self._get_sobol(scramble)
 
         # avoid inf
-        while _np.abs(_np.max(sobol)) == _np.inf:
+        while not _np.all(_np.isfinite(sobol)):
             sobol = self._get_sobol(scramble)
 
         if self._eps is None:
-- 
2.43.0


From e7d53b8b209282cdaa1e7288abba6df1bab44f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 02/17] fix: Monte Carlo trace prints the cumulative average up
 to each loop

---
 src/finoptions/monte_carlo_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/monte_carlo_options/__init__.py b/src/finoptions/monte_carlo_options/__init__.py
index acd98fb..a1bad93 100644
--- a/src/finoptions/monte_carlo_options/__init__.py
+++ b/src/finoptions/monte_carlo_options/__init__.py
@@ -293,7 +293,7 @@ class MonteCarloOption:  # _Option
                 i,
                 "\t:",
                 iteration[i],
-                _np.sum(iteration) / (i + 1),
+                _np.sum(iteration[: i + 1]) / (i + 1),
                 end="",
             )
         print("\n")
-- 
2.43.0


From 03b5d2362eb5cc9f0cf75399f05ba92bff13b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 03/17] fix: return the Inf loop for diagnosis also when
 tracing

With trace=True the (eps, path, payoff) tuple of an Inf loop was passed to _print_trace, which crashed on it.
---
 src/finoptions/monte_carlo_options/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/monte_carlo_options/__init__.py b/src/finoptions/monte_carlo_options/__init__.py
index a1bad93..2a63000 100644
--- a/src/finoptions/monte_carlo_options/__init__.py
+++ b/src/finoptions/monte_carlo_options/__init__.py
@@ -249,7 +249,8 @@ class MonteCarloOption:  # _Option
         [1] Haug E.G., The Complete Guide to Option Pricing Formulas
         """
         iteration = self._sim_mc(call=True)
-        if self._trace:
+        # an Inf loop returns a tuple for diagnosis, which has no loop averages to trace
+        if self._trace and not isinstance(iteration, tuple):
             self._print_trace(iteration)
 
         return iteration
@@ -278,7 +279,8 @@ class MonteCarloOption:  # _Option
         [1] Haug E.G., The Complete Guide to Option Pricing Formulas
         """
         iteration = self._sim_mc(call=False)
-        if self._trace:
+        # an Inf loop returns a tuple for diagnosis, which has no loop averages to trace
+        if self._trace and not isinstance(iteration, tuple):
             self._print_trace(iteration)
 
         return iteration
-- 
2.43.0


From d6633ad46c4cf8b30eb7053f24b8490aaccc7b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 04/17] fix: a symmetric HN-GARCH fit keeps gamma at zero
 throughout

~symmetric is truthy for True as well as False, so the symmetric fit optimised gamma and then reported gamma = 0 next to the likelihood, z and h of another model.
---
 src/finoptions/heston_nandi_options/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index dcd5431..77eb837 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -259,7 +259,7 @@ def _llhHNGarch(x0, trace, symmetric, rfr, x, ret_obj=False):
     beta = 1 / (1 + _np.exp(-beta))
 
     # Add gamma if selected:
-    if ~symmetric:
+    if not symmetric:
         gam = gamma
     else:
         gam = 0
@@ -312,9 +312,7 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
     par_omega = -_np.log((1-omega)/omega)  # for 2
     par_alpha = -_np.log((1-alpha)/alpha)  # for 3
     par_beta = -_np.log((1-beta)/beta)     # for 4
-    par_start = [lamb, par_omega, par_alpha, par_beta]
-    if ~symmetric:
-        par_start.append(gam)
+    par_start = [lamb, par_omega, par_alpha, par_beta, gam]
 
     # Initial Log Likelihood:
     opt = dict()
-- 
2.43.0


From 3954ac5c047cf3d4ffb52721fd4c6094067fed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 05/17] fix: hngarch_sim no longer truncates integer
 innovations series to integers

---
 src/finoptions/heston_nandi_options/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index 77eb837..efe87f1 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -414,9 +414,9 @@ def hngarch_sim(lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma = 0,
         inno_start = _np.random.normal(0, 1, n_start)
 
     if inno_start is not None:
-        x = _np.concatenate((inno_start, inno))
+        x = _np.concatenate((inno_start, inno)).astype(float)
     else:
-        x = inno.copy()
+        x = _np.array(inno, dtype=float)
     h = x.copy()
     Z = x.copy()
     
-- 
2.43.0


From 39eb5fdfdfffa7a3b4d3f2ce2589a6bde0fdfbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 06/17] fix: set_param leaves the option unchanged when the
 change fails

A constructor that raised half-way left the option with new parameters and old derived values.
---
 src/finoptions/base.py           | 8 +++++++-
 src/finoptions/vanillaoptions.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 713d069..b1f0065 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -389,7 +389,13 @@ class Option(Derivative):
         tmp = self.get_params()
         tmp[x] = value
 
-        self.__init__(**tmp)
+        old = self.__dict__.copy()
+        try:
+            self.__init__(**tmp)
+        except BaseException:
+            # a rejected or interrupted change leaves the option as it was
+            self.__dict__ = old
+            raise
 
     # @abstractmethod
     # def delta(self):
diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 0479872..60918ff 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -592,7 +592,13 @@ class Black76Option(GBSOption):
 
         del tmp["b"]  # delete b prior to re-init
 
-        self.__init__(**tmp)
+        old = self.__dict__.copy()
+        try:
+            self.__init__(**tmp)
+        except BaseException:
+            # a rejected or interrupted change leaves the option as it was
+            self.__dict__ = old
+            raise
 
 
 class MiltersenSchwartzOption(Option):
-- 
2.43.0


From a8a399e30fb457d930f8a67cee84d92d25482235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 07/17] fix: summary no longer swallows KeyboardInterrupt and
 SystemExit

---
 src/finoptions/base.py                            | 2 +-
 src/finoptions/basic_american_options/__init__.py | 4 ++--
 src/finoptions/binomial_tree_options/__init__.py  | 2 +-
 src/finoptions/spread_options/bitree3d.py         | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index b1f0065..69d6f35 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -446,7 +446,7 @@ class Option(Derivative):
             else:
                 price = f"\nOption Price:\n\n  call: {round(self.call(),6)}\n  put: {round(self.put(),6)}"
             out += price
-        except:
+        except Exception:
             pass
 
         if printer == True:
diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 50b60bc..094baa1 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -206,7 +206,7 @@ class RollGeskeWhaleyOption(_Option):
             # if self._sigma or its variations are not None add call and put prices
             price = f"\nOption Price:\n\n  call: {round(self.call(),6)}\n"
             out += price
-        except:
+        except Exception:
             pass
 
         out += f"  Optimal to Exercise Call Option: {self.is_call_optimal()}"
@@ -895,7 +895,7 @@ class BSAmericanApproxOption(_Option):
             # if self._sigma or its variations are not None add call and put prices
             price = f"\nOption Price:\n\n  call: {round(self.call()['OptionPrice'],6)}, trigger: {round(self.call()['TriggerPrice'],6)}\n  put: {round(self.put()['OptionPrice'],6)}, trigger: {round(self.put()['TriggerPrice'],6)}"
             out += price
-        except:
+        except Exception:
             pass
 
         if printer == True:
diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index b2010f1..3f7febe 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -263,7 +263,7 @@ class CRRBinomialTreeOption(_Option):
             else:
                 price = f"\nOption Price:\n\n  call-{self._type}: {round(self.call(),6)}\n  put-{self._type}: {round(self.put(),6)}"
             out += price
-        except:
+        except Exception:
             pass
 
         if printer == True:
diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index bbaafd2..fe2e1f5 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -401,7 +401,7 @@ class BionomialSpreadAllTypes(_Option):
             else:
                 price = f"\nOption Price:\n\n  call-{self._otype}: {round(self.call(),6)}\n  put-{self._otype}: {round(self.put(),6)}"
             out += price
-        except:
+        except Exception:
             pass
 
         if printer == True:
-- 
2.43.0


From 66cf9787f77e8586d2c22dd634da9d8dac1b3ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 08/17] fix: finite-difference delta, gamma and lambda of
 Black76Option

GreeksFDM sets parameter S, which Black76Option rejected with a TypeError.
---
 src/finoptions/vanillaoptions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 60918ff..91622f5 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -588,7 +588,8 @@ class Black76Option(GBSOption):
         """
 
         tmp = self.get_params()
-        tmp[x] = value
+        # the futures price is this model's underlying price, which GreeksFDM knows as S
+        tmp["FT" if x == "S" else x] = value
 
         del tmp["b"]  # delete b prior to re-init
 
-- 
2.43.0


From 58c7defd904826c25fd877f37b56db53263cc4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 09/17] fix: outperformance option pays (Q1*S1)/(Q2*S2) - K

Operator precedence made it Q1*S1/Q2*S2, contrary to the documented payoff.
---
 src/finoptions/spread_options/bitree3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index fe2e1f5..2f5a7d4 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -219,7 +219,7 @@ class BionomialSpreadAllTypes(_Option):
         elif option == 7: # Exchange option
             return _np.maximum(0, z*(Q2*S2 - Q1*S1))
         elif option == 8: # Outperformance option
-            return _np.maximum(0, z*((Q1*S1 / Q2*S2) - K))
+            return _np.maximum(0, z*((Q1*S1) / (Q2*S2) - K))
         elif option == 9: # Product option
             return _np.maximum(0, z*((Q1*S1 * Q2*S2) - K))
         
-- 
2.43.0


From 4852eb9511f2b523284ff750c51eeea030309f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 10/17] fix: Black76Option rejects a cost of carry instead of
 silently ignoring it

---
 src/finoptions/vanillaoptions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 91622f5..b927fa6 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -587,6 +587,9 @@ class Black76Option(GBSOption):
         None
         """
 
+        if x == "b" and _np.any(value != 0):
+            raise ValueError("b is fixed at 0 for Black76Option")
+
         tmp = self.get_params()
         # the futures price is this model's underlying price, which GreeksFDM knows as S
         tmp["FT" if x == "S" else x] = value
-- 
2.43.0


From 0a0ccba557b8872da16aafc4f379faabab21eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 11/17] fix: TIAN tree and binomial spread options name their
 own class

repr() and summary() showed the name of another option class.
---
 src/finoptions/binomial_tree_options/__init__.py | 3 +++
 src/finoptions/spread_options/bitree3d.py        | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index 3f7febe..b987703 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -504,6 +504,9 @@ class TIANBinomialTreeOption(CRRBinomialTreeOption):
     [1] Haug E.G., The Complete Guide to Option Pricing Formulas
     """
 
+    __name__ = "TIANBinomialTreeOption"
+    __title__ = "TIAN Binomial Tree Model"
+
     def _calc_price(self, z, n, type, tree=False):
         dt = self._t / n
         M = _np.exp(self._b * dt)
diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index 2f5a7d4..8e032d5 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -745,7 +745,7 @@ class BionomialSpreadOption(BionomialSpreadAllTypes):
     >>> opt.put()
     >>> opt.greeks(call=True)
     """
-    __name__ = "BionomialMinOption"
+    __name__ = "BionomialSpreadOption"
     __title__ = "Binomial Tree Spread Option Model"
 
     def __init__(
-- 
2.43.0


From 5b4318bc14da442248da0838de66da281240f008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 12/17] fix: reported HN-GARCH maximum is that of the reported
 estimates

---
 src/finoptions/heston_nandi_options/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index efe87f1..59b7c07 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -326,8 +326,6 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
     # Estimate Parameters:
     res = _minimize(_llhHNGarch, par_start, args=(trace, symmetric, rfr, x), method='L-BFGS-B', **kw_nlm)
 
-    # Log-Likelihood:
-    opt['minimum'] = -res.fun + len(x)*_np.sqrt(2*_np.pi)
     # opt['params'] = params
     # opt['symmetric'] = symmetric
     opt['estimate'] = res.x
@@ -337,6 +335,10 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
     opt['h'] = final.h
     opt['z'] = final.z
 
+    # Log-Likelihood (of the final estimates: res.fun can be nan, or belong to another
+    # point, if the line search left the stationary region):
+    opt['minimum'] = -final.llhHNGarch + len(x)*_np.sqrt(2*_np.pi)
+
     # Backtransform Estimated parameters:
     lamb = opt['estimate'][0]
     omega = (1 / (1+_np.exp(-opt['estimate'][1])))
-- 
2.43.0


From ebc2bf9bf515c605ab0ee6c0ca1e872088606ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 13/17] fix: HN-GARCH likelihood no longer underflows to inf
 for outlying residuals

---
 src/finoptions/heston_nandi_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index 59b7c07..82f99f2 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -275,7 +275,7 @@ def _llhHNGarch(x0, trace, symmetric, rfr, x, ret_obj=False):
     # fmt: on
 
     # Calculate Log - Likelihood for Normal Distribution:
-    llhHNGarch = -_np.sum(_np.log(_norm.pdf(z) / _np.sqrt(h)))
+    llhHNGarch = -_np.sum(_norm.logpdf(z) - _np.log(h) / 2)
     if trace:
         print("Parameter Estimate\n")
         print(lamb, omega, alpha, beta, gam)
-- 
2.43.0


From dfc3c213f9e7177eef774b8726222419ad1dad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 14/17] fix: summaries and representations accept 0-d array
 parameters

---
 src/finoptions/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 69d6f35..7534bd9 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -477,7 +477,7 @@ class Option(Derivative):
         so that it fits.
         """
         if isinstance(x, _np.ndarray):
-            if x.shape[0] > 6:
+            if x.ndim and x.shape[0] > 6:
                 return _np.array2string(x.round(2), threshold=6)
 
         return x
-- 
2.43.0


From 11ccc733dc239398fa7fe9c0488e2137bfff562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 15/17] fix: Roll-Geske-Whaley greeks where a difference step
 takes S below the dividend

---
 src/finoptions/base.py                            | 3 +++
 src/finoptions/basic_american_options/__init__.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 7534bd9..c34ec4e 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -127,6 +127,9 @@ class _Base(ABC):
             result = self._CBND(a, 0, rho1) + self._CBND(b, 0, rho2) - delta
             return result
 
+        # undefined arguments, i.e. nan
+        return _np.nan
+
 
 class Derivative(_Base):
     pass
diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 094baa1..f204bd7 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -113,6 +113,10 @@ class RollGeskeWhaleyOption(_Option):
             # print("\nWarning: Not optimal to exercise\n")
             return result
 
+        # undefined (and the search below need not end) if the dividend is worth all of S
+        if Sx <= 0:
+            return _np.nan
+
         ci = _GBSOption(
             self._S, self._K, self._t - self._td, self._r, b=self._r, sigma=self._sigma
         ).call()
-- 
2.43.0


From cf047de8f661f5ca4baf71c4953b6d1a3473fed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:50 +0000
Subject: [PATCH 16/17] fix: rho of options with an array of carry costs

---
 src/finoptions/vanillaoptions.py | 36 +++++++++++++++-----------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index b927fa6..af0fd8a 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -300,31 +300,29 @@ class GBSOption(Option):
         if method == "analytic":
             if call == True:
                 price = self.call()
-                if self._b != 0:
-                    result = (
-                        self._t
-                        * self._K
-                        * _np.exp(-self._r * self._t)
-                        * self._CND(self._d2)
-                    )
-                else:
-                    result = -self._t * price
+                result = (
+                    self._t
+                    * self._K
+                    * _np.exp(-self._r * self._t)
+                    * self._CND(self._d2)
+                )
+                # b may be an array, in which every option has its own case
+                result = _np.where(self._b != 0, result, -self._t * price)[()]
             else:
                 price = self.put()
-                if self._b != 0:
-                    result = (
-                        -self._t
-                        * self._K
-                        * _np.exp(-self._r * self._t)
-                        * self._CND(-self._d2)
-                    )
-                else:
-                    result = -self._t * price
+                result = (
+                    -self._t
+                    * self._K
+                    * _np.exp(-self._r * self._t)
+                    * self._CND(-self._d2)
+                )
+                # b may be an array, in which every option has its own case
+                result = _np.where(self._b != 0, result, -self._t * price)[()]
 
             return result
         elif method == "fdm":
             # This only works if the cost to carry b is zero....
-            if self._b == 0:
+            if _np.all(self._b == 0):
                 return self._greeks.rho(call=call)
             else:
                 raise ValueError(
-- 
2.43.0


From cde283768c75a6be9b2cca1c15597e543e1c4c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:01 +0000
Subject: [PATCH 17/17] fix: a shallow copy of an option no longer shares the
 original's greeks

---
 src/finoptions/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index c34ec4e..7c06106 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -132,7 +132,10 @@ class _Base(ABC):
 
 
 class Derivative(_Base):
-    pass
+    def __copy__(self):
+        # a shallow copy would share the original's greeks object, which
+        # computes from the original
+        return _copy.deepcopy(self)
 
     @abstractmethod
     def get_params(self):
-- 
2.43.0

