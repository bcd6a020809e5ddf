From 7bf69b4c60fa3466ab4be0fec5c4078f240e6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 01/46] fix: Garman-Kohlhagen theta of puts and with unequal
 rates

---
 frm/pricing_engine/garman_kohlhagen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 0ad0f8e..911428c 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -121,9 +121,9 @@ def garman_kohlhagen_price(
         results['analytical_greeks']['vega'] = analytical_formula * 0.01 # normalised to 1% change
 
         # Per market convention, theta is normalised to the price decay for 1 calendar day.
-        analytical_formula = -(S0*np.exp(-r*tau)*norm.pdf(d1 * cp)*σ)/(2*np.sqrt(tau)) \
-            + q * np.exp(-q * tau) * S0 * norm.cdf(d1 * cp) \
-            - r * np.exp(-r * tau) * K * norm.cdf(d2 * cp)
+        analytical_formula = -(S0*np.exp(-q*tau)*norm.pdf(d1 * cp)*σ)/(2*np.sqrt(tau)) \
+            + cp * q * np.exp(-q * tau) * S0 * norm.cdf(d1 * cp) \
+            - cp * r * np.exp(-r * tau) * K * norm.cdf(d2 * cp)
         results['analytical_greeks']['theta'] = analytical_formula * 1/365.25 # normalised to 1 calendar day
 
         # In practice, gamma is  normalised to measure the change in Δ, for a 1% change in the underlying assets price.
-- 
2.43.0


From a815ec51e1cf11738d2a3d9ae6dc746e78eb99c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 02/46] fix: Garman-Kohlhagen rho is discounted at the domestic
 rate and signed for puts

---
 frm/pricing_engine/garman_kohlhagen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 911428c..82cdb9b 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -133,7 +133,7 @@ def garman_kohlhagen_price(
 
         # In practice, Rho is normalised to measure the change in price for a 1% change in the underlying interest rate.
         # Hence, we have multiplied the analytical formula result by 0.01 (i.e. 1%)
-        analytical_formula = K * tau * np.exp(-q * tau) * norm.cdf(cp * d2)
+        analytical_formula = cp * K * tau * np.exp(-r * tau) * norm.cdf(cp * d2)
         results['analytical_greeks']['rho'] = analytical_formula * 0.01
 
 
-- 
2.43.0


From 4d5562761a1b6fb0a1ecf3f02209f237db16403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 03/46] fix: Garman-Kohlhagen numerical greeks raised KeyError;
 rho bumps the domestic rate only

---
 frm/pricing_engine/garman_kohlhagen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 82cdb9b..270d879 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -138,7 +138,7 @@ def garman_kohlhagen_price(
 
 
     if numerical_greeks:
-        numerical_greeks = pd.DataFrame()
+        results['numerical_greeks'] = pd.DataFrame()
 
         Δ_shift = 1 / 100  # 1% shift
         σ_shift = 1 / 100  # 1% shift
@@ -161,7 +161,7 @@ def garman_kohlhagen_price(
         # and S0 is the fx spot price (whose units is DOM/FOR)
         # To get the Δ % applicable to the foreign currency notional multiply the below by S0.
         results['numerical_greeks']['spot_delta'] = (X_S_plus - X_S_minus) / (2 * S0 * Δ_shift)
-        results['numerical_greeks']['forward_delta'] = numerical_greeks['spot_delta'] / np.exp(-r_f * tau)
+        results['numerical_greeks']['forward_delta'] = results['numerical_greeks']['spot_delta'] / np.exp(-r_f * tau)
 
         # Vega, ν, is the change in an options price for a small change in the volatility input
         # ν = ∂X/∂σ ≈ (X(σ_plus) − X(σ_minus)) / (σ_plus - σ_minus).
@@ -187,8 +187,8 @@ def garman_kohlhagen_price(
 
         # Rho, ρ, is the rate at which the price of an option changes relative to a change in the interest rate.
         # This formulae will yield meaningfully different results on whether the forward rate is an input (or if it is calculated from the interest rate differential)
-        X_ρ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ+σ_shift, F=F)['price']
-        X_ρ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ-σ_shift, F=F)['price']
+        X_ρ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d+ρ_shift, r_f=r_f, cp=cp, K=K, vol=σ, F=F)['price']
+        X_ρ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d-ρ_shift, r_f=r_f, cp=cp, K=K, vol=σ, F=F)['price']
         results['numerical_greeks']['rho'] = (X_ρ_plus - X_ρ_minus) / 2
 
     return results
-- 
2.43.0


From 5c17dac174d5d1a3a9045e88f232618c47b5aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 04/46] fix: premium-adjusted strikes report an unattainable
 delta and leave -0.5 quotes delta neutral

---
 frm/pricing_engine/garman_kohlhagen.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 270d879..16844cd 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -287,7 +287,7 @@ def garman_kohlhagen_solve_strike_from_delta(
                        
         if np.any(mask_not_atm):
             for i in range(len(Δ)):
-                if Δ[i] != 0.5:
+                if mask_not_atm[i]:
                     # For premium adjusted quotes the strike must be solved numerically. Refer to [1] for full details.
 
                     def solve_delta(K_):
@@ -320,8 +320,8 @@ def garman_kohlhagen_solve_strike_from_delta(
                         
                         try: 
                             solution = root_scalar(solve_k_lower_bound, x0=F ,bracket=[0.00001, K_max])
-                        except ValueError('the numerical solve for K_min, for delta', Δ[i], ', resulted in an error'):
-                            pass
+                        except ValueError as e:
+                            raise ValueError('the numerical solve for K_min, for delta', Δ[i], ', resulted in an error') from e
                     
                         if solution.converged:
                             K_min = solution.root
@@ -330,8 +330,9 @@ def garman_kohlhagen_solve_strike_from_delta(
                         
                         try:
                             solution = root_scalar(solve_delta, x0=K_max, bracket=[K_min,K_max])
-                        except ValueError('the numerical solve for premium adjusted strike for delta', Δ[i], ', resulted in an error'):
+                        except ValueError as e:
                             print('This is likely due to an error in the input, for example typos or specifying the delta_convention as spot-delta when it is actually forward-delta')
+                            raise ValueError('the numerical solve for premium adjusted strike for delta', Δ[i], ', resulted in an error') from e
                         
                     if solution.converged:
                         result[i] = solution.root
-- 
2.43.0


From 0a3790bbed661c5a8016ee71869a167b4a61c06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 05/46] fix: implied Black-76/Bachelier volatilities are only
 returned when they reprice within tolerance

---
 frm/pricing_engine/black76_bachelier.py | 48 +++++++++----------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index b3c0a6a..368e06d 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -151,7 +151,7 @@ def black76_solve_implied_vol(
 
     # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
     # Hence set obj function tol to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    xtol = 1e-6
+    xtol = 1e-12
     obj_func_tol = 1e-5
     x0 = vol_sln_guess
     bounds = VOL_SLN_BOUNDS
@@ -174,8 +174,8 @@ def black76_solve_implied_vol(
             options = {'ftol': obj_func_tol, 'gtol': 0} # gtol set to 0, so optimisation is terminated based on ftol
             power = 2 # Use squared error for the optimisation
             res = minimize(fun=error_function, x0=np.atleast_1d(x0), bounds=[bounds], method='L-BFGS-B', options=options)
-            # 2nd condition required as we have overridden options to terminate based on ftol
-            if res.success or abs(res.fun) < obj_func_tol**power:
+            # The termination status is not sufficient as we have overridden options to terminate based on ftol
+            if abs(res.fun) < obj_func_tol**power:
                 return res.x[0]
             else:
                 raise ValueError('Optimisation to solve normal volatility did not converge.')
@@ -296,7 +296,7 @@ def bachelier_solve_implied_vol(
 
     # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
     # Hence set obj function tol to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    xtol = 1e-6
+    xtol = 1e-12
     obj_func_tol = 1e-5
     x0 = vol_n_guess
     bounds = VOL_N_BOUNDS
@@ -319,8 +319,8 @@ def bachelier_solve_implied_vol(
             options = {'ftol': obj_func_tol, 'gtol': 0} # gtol set to 0, so optimisation is terminated based on ftol
             power = 2 # Use squared error for the optimisation
             res = minimize(fun=error_function, x0=np.atleast_1d(x0), bounds=[bounds], method='L-BFGS-B', options=options)
-            # 2nd condition required as we have overridden options to terminate based on ftol
-            if res.success or abs(res.fun) < obj_func_tol**power:
+            # The termination status is not sufficient as we have overridden options to terminate based on ftol
+            if abs(res.fun) < obj_func_tol**power:
                 return res.x[0]
             else:
                 raise ValueError('Optimisation to solve normal volatility did not converge.')
@@ -427,21 +427,13 @@ def shift_black76_vol(
                    bounds=[VOL_SLN_BOUNDS],
                    method='L-BFGS-B',
                    options=options)
-    # 2nd condition required as we have overridden options to terminate based on ftol
-    if res.success or abs(res.fun) < obj_func_tol:
+    # The termination status is not sufficient as we have overridden options to terminate based on ftol
+    if abs(res.fun) < obj_func_tol:
         return res.x[0]
     else:
-        # Further development could include:
-        # (i) fallback to other optimisation methods (e.g. 'trust-constr')
-        # (ii) addition of 'xtol' parameter into the optimisation (it is a parameter that is not available in 'L-BFGS-B')
-        #      'xtol' allows termination of the optimisation when the solved parameter (i.e. vol_sln) only changes by a small amount (e.g. 0.001%)
-        vol_new_ln_shift = res.x[0]
-        black76_px_shifted = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_new_ln_shift, ln_shift=to_ln_shift)['price'][0]
-        print({'F': F, 'tau': tau, 'K': K, 'vol_n': vol_sln, 'ln_shift': from_ln_shift})
-        print({'black76_px': black76_px, 'black76_px_shifted': black76_px_shifted, 'vol_new_ln_shift': vol_new_ln_shift,
-               'relative_error': obj_func_relative_px_error(vol_sln)})
-        print(res)
-        raise ValueError('Optimisation to shift Black76 volatility did not converge.')
+        # The objective is flat away from the solution, which stalls the gradient based optimisation.
+        # The price is monotonic in the volatility, hence fallback to the bracketed solver (which raises if there is no solution).
+        return black76_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, ln_shift=to_ln_shift, X=black76_px)
 
 
 def normal_vol_atm_to_black76_sln_atm(
@@ -483,21 +475,13 @@ def normal_vol_to_black76_sln(
                    bounds=[VOL_SLN_BOUNDS],
                    method='L-BFGS-B',
                    options=options)
-    # 2nd condition required as we have overridden options to terminate based on ftol
-    if res.success or abs(res.fun) < obj_func_tol:
+    # The termination status is not sufficient as we have overridden options to terminate based on ftol
+    if abs(res.fun) < obj_func_tol:
         return res.x[0]
     else:
-        # Further development could include:
-        # (i) fallback to other optimisation methods (e.g. 'trust-constr')
-        # (ii) addition of 'xtol' parameter into the optimisation (it is a parameter that is not available in 'L-BFGS-B')
-        #      'xtol' allows termination of the optimisation when solved parameter (i.e. vol_sln) only changes by a small amount (e.g. 0.001%)
-        vol_sln = res.x[0]
-        black76_px = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift)['price'][0]
-        print({'F': F, 'tau': tau, 'K': K, 'vol_n': vol_n, 'ln_shift': ln_shift})
-        print({'bachelier_px': bachelier_px, 'black76_px': black76_px, 'vol_sln': vol_sln,
-               'relative_error': obj_func_relative_px_error(vol_sln)})
-        print(res)
-        raise ValueError('Optimisation to convert normal volatility to log-normal volatility did not converge.')
+        # The objective is flat away from the solution, which stalls the gradient based optimisation.
+        # The price is monotonic in the volatility, hence fallback to the bracketed solver (which raises if there is no solution).
+        return black76_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, ln_shift=ln_shift, X=bachelier_px)
 
 
 
-- 
2.43.0


From 7156a13cac9c05200d85c504f842771df4c5bfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 06/46] fix: Black-76 numerical greeks applied the log-normal
 shift twice

---
 frm/pricing_engine/black76_bachelier.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 368e06d..a5fbdf5 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -108,10 +108,11 @@ def black76_price(
 
         # Delta, Δ, is the change in an option's price for a small change in the underlying assets (forward) price.
         # Δ := ∂X/∂F ≈ (X(F_plus) − X(F_minus)) / (F_plus - F_minus)
+        # F and K already include the log-normal shift, hence ln_shift=0 in the bumped valuations.
         Δ_shift = 0.01
-        results_F_plus = black76_price(F=F*(1+Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
+        results_F_plus = black76_price(F=F*(1+Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=0,
                            annuity_factor=annuity_factor, analytical_greeks=True)
-        results_F_minus = black76_price(F=F*(1-Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
+        results_F_minus = black76_price(F=F*(1-Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=0,
                             annuity_factor=annuity_factor, analytical_greeks=True)
         results['numerical_greeks']['delta'] = (results_F_plus['price'] - results_F_minus['price']) / (2 * F * Δ_shift)
 
@@ -119,9 +120,9 @@ def black76_price(
         # ν = ∂X/∂σ ≈ (X(σ_plus) − X(σ_minus)) / (σ_plus - σ_minus).
         # We divide by 0.01 (1%) to normalise the vega to a 1% change in the volatility input, per market convention.
         σ_shift = 0.01
-        results_σ_plus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln+σ_shift, ln_shift=ln_shift,
+        results_σ_plus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln+σ_shift, ln_shift=0,
                            annuity_factor=annuity_factor, analytical_greeks=True)
-        results_σ_minus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln-σ_shift, ln_shift=ln_shift,
+        results_σ_minus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln-σ_shift, ln_shift=0,
                             annuity_factor=annuity_factor, analytical_greeks=True)
         results['numerical_greeks']['vega'] = (results_σ_plus['price'] - results_σ_minus['price']) / (2 * (σ_shift / 0.01))
 
-- 
2.43.0


From 302249a2991066dde16e7ffd260c4fe1e430a5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 07/46] fix: Bachelier theta is per calendar day

---
 frm/pricing_engine/black76_bachelier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index a5fbdf5..ff09059 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -270,7 +270,7 @@ def bachelier_price(
         results['analytical_greeks']['vega'] = np.sqrt(tau) * norm.pdf(cp * d) * annuity_factor * 0.0001
 
         # Normalised to 1 calendar day.
-        results['analytical_greeks']['theta'] = (-0.5 * norm.pdf(d) * σN / np.sqrt(tau)) * annuity_factor / (1/365.25)
+        results['analytical_greeks']['theta'] = (-0.5 * norm.pdf(d) * σN / np.sqrt(tau)) * annuity_factor * (1/365.25)
 
     return results
 
-- 
2.43.0


From c0227b54f2e361c8f2897ea7a6cd0c8b7bccfd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 08/46] fix: Black-76/Bachelier intrinsic value includes the
 annuity factor and broadcasts the expiry

---
 frm/pricing_engine/black76_bachelier.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index ff09059..bebfa2e 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -88,9 +88,7 @@ def black76_price(
 
     # Intrinsic / time value split
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (F - K))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
+        intrinsic = np.where(tau > 0, annuity_factor * np.maximum(0, cp * (F - K)), X)
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
@@ -255,9 +253,7 @@ def bachelier_price(
 
     # Intrinsic / time value split
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (F - K))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
+        intrinsic = np.where(tau > 0, annuity_factor * np.maximum(0, cp * (F - K)), X)
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
-- 
2.43.0


From 65e34be384a0f4c08ad3784628363efe2f9e8b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 09/46] fix: Black-76/Bachelier at-the-money price at expiry is
 zero instead of NaN

---
 frm/pricing_engine/black76_bachelier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index bebfa2e..1936114 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -83,6 +83,7 @@ def black76_price(
     d1 = (np.log(F/K) + (0.5 * σB**2 * tau)) / (σB*np.sqrt(tau))
     d2 = d1 - σB*np.sqrt(tau)
     X = annuity_factor * cp * (F * norm.cdf(cp * d1) - K * norm.cdf(cp * d2))
+    X = np.where(σB * np.sqrt(tau) == 0, annuity_factor * np.maximum(0, cp * (F - K)), X) # At expiry (or zero volatility) the price is the intrinsic value
 
     results = {'price': X}
 
@@ -248,6 +249,7 @@ def bachelier_price(
     # Price per Bachelier formula
     d = (F - K) / (σN * np.sqrt(tau))
     X = annuity_factor * ( cp * (F - K) * norm.cdf(cp * d) + σN * np.sqrt(tau) * norm.pdf(d) )
+    X = np.where(σN * np.sqrt(tau) == 0, annuity_factor * np.maximum(0, cp * (F - K)), X) # At expiry (or zero volatility) the price is the intrinsic value
 
     results = {'price': X}
 
-- 
2.43.0


From 6e24339145c62309ce729156f325e61a03a27446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 10/46] fix: forward_volatility returns NaN for an empty gap
 and refuses reversed expiries among mixed elements

---
 frm/pricing_engine/volatility_generic.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/frm/pricing_engine/volatility_generic.py b/frm/pricing_engine/volatility_generic.py
index 1c91c05..c2aaf8e 100644
--- a/frm/pricing_engine/volatility_generic.py
+++ b/frm/pricing_engine/volatility_generic.py
@@ -35,14 +35,15 @@ def forward_volatility(t1: float | np.ndarray,
     - Negative values under the square root indicate inconsistent input volatilities and will raise an error.
     """
 
+    t1, vol_t1, t2, vol_t2 = map(np.asarray, (t1, vol_t1, t2, vol_t2))
     tau = t2 - t1
-    if np.any(tau == 0):
-        mask = tau == 0
-        warnings.warn(f"t2 and t1 are equal. NaN will be returned for these values: t1 {t1[mask]}, t2 {t2[mask]}")
-    elif np.any(tau < 0):
+    mask = tau == 0
+    if np.any(tau < 0):
         raise ValueError("t2 is less than t1.")
+    if np.any(mask):
+        warnings.warn(f"t2 and t1 are equal. NaN will be returned for these values: t1 {t1[mask]}, t2 {t2[mask]}")
 
-    var_t1_t2 = (vol_t2 ** 2 * t2 - vol_t1 ** 2 * t1) / tau
+    var_t1_t2 = np.where(mask, np.nan, vol_t2 ** 2 * t2 - vol_t1 ** 2 * t1) / np.where(mask, 1, tau)
     if np.any(var_t1_t2 < 0):
         raise ValueError("Negative value encountered under square root.")
 
-- 
2.43.0


From 6370ac1ed067038653065394260abe12273fbf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 11/46] fix: antithetic draws keep the requested number of
 paths and pair correctly when it is odd

---
 frm/pricing_engine/monte_carlo_generic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index 004003c..9436357 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -56,7 +56,9 @@ def generate_rand_nbs(nb_steps: int,
         rand_nbs = np.concatenate([rand_nbs_normal, rand_nbs_antithetic_variate], axis=2)
 
         # Reindex to pair normal with antithetic variates
-        idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_pairs)).flatten()
+        idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_simulations - nb_pairs)).flatten()
+        if nb_simulations % 2 == 1:
+            idx = np.append(idx, nb_pairs) # The last path has no antithetic pair
         rand_nbs = rand_nbs[:, :, idx]
     else:    
         rand_nbs = np.random.normal(0, 1, (nb_steps, nb_rand_vars, nb_simulations))
-- 
2.43.0


From ed817e580760366f50852cae0f712418f97a547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 12/46] fix: normal_corr applied the transposed Cholesky
 factor, giving the wrong variances and correlation

---
 frm/pricing_engine/monte_carlo_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index 9436357..1378f43 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -79,8 +79,8 @@ def normal_corr(C: np.array,
     np.ndarray: Correlated pseudo random normal variates.
     """    
     
-    M = np.linalg.cholesky(C).T
-    return (M @ rand_nbs.T).T
+    L = np.linalg.cholesky(C)
+    return (L @ rand_nbs.T).T
 
 
 
-- 
2.43.0


From 1ef9d406acc8780263489f979672aa479ec3648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 13/46] fix: simulate_gbm_path supports several underlyings as
 documented

---
 frm/pricing_engine/geometric_brownian_motion.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/geometric_brownian_motion.py b/frm/pricing_engine/geometric_brownian_motion.py
index 4676e87..8515aa1 100644
--- a/frm/pricing_engine/geometric_brownian_motion.py
+++ b/frm/pricing_engine/geometric_brownian_motion.py
@@ -56,15 +56,15 @@ def simulate_gbm_path(initial_px: np.array,
     # if initial_px.ndim == 1:
     #     initial_px = initial_px.reshape(1, -1)
 
-    if drift.shape[0] == 1:
+    nb_timesteps = timestep_length.shape[0]
+    if drift.shape[0] != nb_timesteps:
         drift = drift.reshape(-1, 1)
-    if forward_volatility.shape[0] == 1:
+    if forward_volatility.shape[0] != nb_timesteps:
         forward_volatility = forward_volatility.reshape(-1, 1)
     if initial_px.shape[0] == 1:
         initial_px = initial_px.reshape(1, -1)
 
     # Shape checks
-    nb_timesteps = timestep_length.shape[0]
     assert nb_timesteps == drift.shape[0]
     assert nb_timesteps == forward_volatility.shape[0]
     assert nb_timesteps == rand_nbs.shape[0]
@@ -77,12 +77,14 @@ def simulate_gbm_path(initial_px: np.array,
 
     # Initialise shape and set initial value of underlying(s)
     x = np.zeros((rand_nbs.shape[0]+1, rand_nbs.shape[1], rand_nbs.shape[2]))
-    x[0, :, :] = initial_px
+    x[0, :, :] = initial_px.T
 
     # Simulate per geometric brownian motion process
     for i in range(0, nb_timesteps):
-        x[i+1, :, :] = x[i, :, :] * np.exp((drift[i, :] - 0.5 * (forward_volatility[i, :] ** 2)) *
-                                           timestep_length[i] + forward_volatility[i, :] * np.sqrt(timestep_length[i]) * rand_nbs[i, :, :])
+        drift_i = drift[i, :, np.newaxis]
+        vol_i = forward_volatility[i, :, np.newaxis]
+        x[i+1, :, :] = x[i, :, :] * np.exp((drift_i - 0.5 * (vol_i ** 2)) *
+                                           timestep_length[i] + vol_i * np.sqrt(timestep_length[i]) * rand_nbs[i, :, :])
 
     return x
 
-- 
2.43.0


From 72766de968578ccc9ff21c4d78c3906f98737f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 14/46] fix: Euler Heston simulation left the last simulated
 variance negative

---
 frm/pricing_engine/heston.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 0f8580c..4247589 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -810,14 +810,14 @@ def heston_simulate_scalar(
     elif method[:5] == 'euler':
         x[0, :] = [S0, var0]
         for i in range(1, nb_timesteps + 1):
-            if method == 'euler_with_absorption_of_volatility_process':
-                x[i - 1, 1] = max(x[i - 1, 1], 0)
-            elif method == 'euler_with_reflection_of_volatility_process':
-                x[i - 1, 1] = abs(x[i - 1, 1])
-
             x[i, 1] = x[i - 1, 1] + kappa * (theta - x[i - 1, 1]) * dt + vv * np.sqrt(x[i - 1, 1]) * u[i - 1, 1]
             x[i, 0] = x[i - 1, 0] + x[i - 1, 0] * (mu * dt + np.sqrt(x[i - 1, 1]) * u[i - 1, 0])
 
+            if method == 'euler_with_absorption_of_volatility_process':
+                x[i, 1] = max(x[i, 1], 0)
+            elif method == 'euler_with_reflection_of_volatility_process':
+                x[i, 1] = abs(x[i, 1])
+
     return x
 
 
@@ -931,16 +931,16 @@ def heston_simulate(
         x[0, 1, :] = var0
 
         for i in range(1, nb_timesteps + 1):
-            if method == 'euler_with_absorption_of_volatility_process':
-                x[i - 1, 1, :] = np.maximum(0, x[i - 1, 1, :])
-            elif method == 'euler_with_reflection_of_volatility_process':
-                x[i - 1, 1, :] = np.abs(x[i - 1, 1, :])
-
             x[i, 1, :] = x[i - 1, 1, :] \
                          + kappa * (theta - x[i - 1, 1, :]) * dt + vv * np.sqrt(x[i - 1, 1, :]) * u[i - 1, 1, :]
             x[i, 0, :] = x[i - 1, 0, :] \
                          + x[i - 1, 0, :] * (mu * dt + np.sqrt(x[i - 1, 1, :]) * u[i - 1, 0, :])
 
+            if method == 'euler_with_absorption_of_volatility_process':
+                x[i, 1, :] = np.maximum(0, x[i, 1, :])
+            elif method == 'euler_with_reflection_of_volatility_process':
+                x[i, 1, :] = np.abs(x[i, 1, :])
+
     return x
 
 
-- 
2.43.0


From fb3683a16adcf2b217bd7ed465d420dd02a29c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 15/46] fix: SABR calibration bounded beta by -1..1 instead of
 its valid range 0..1

---
 frm/pricing_engine/sabr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index f084f74..602a7ee 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -245,7 +245,7 @@ def fit_sabr_params_to_sln_smile(tau: float,
     # rho has a valid range of -1≤ρ≤1
     # volvol has a valid range of 0<v≤∞
     x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
-    bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(-1.0, 1.0), (-1.0, 1.0), (0.0001, None)]
+    bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-1.0, 1.0), (0.0001, None)]
     res = scipy.optimize.minimize(fun=lambda param: vol_sse(param), x0=x0, bounds=bounds)
 
     if res.success:
-- 
2.43.0


From ca7bd7b64474a28d6398808f6f235d4b4010ff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 16/46] fix: SABR calibration without a log-normal shift raised
 TypeError

---
 frm/pricing_engine/sabr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index 602a7ee..5b01b5e 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -190,7 +190,7 @@ def fit_sabr_params_to_sln_smile(tau: float,
                                  F: float,
                                  K: NDArray[float],
                                  vols_sln: NDArray[float],
-                                 ln_shift: float=None,
+                                 ln_shift: float=0.0,
                                  beta_overide: Optional[float]=None)-> tuple:
     """
     Calibrates SABR parameters to a volatility smile of European option prices using the Hagan 2002 (lognormal) SABR model and the Black76 formula.
-- 
2.43.0


From 08a2f36c7ff0e2d0c8da536878ba18561d889514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 17/46] fix: simple rates convert over their own term instead
 of one year

---
 frm/enums/utils.py                | 7 ++++---
 frm/term_structures/zero_curve.py | 5 ++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/frm/enums/utils.py b/frm/enums/utils.py
index 90a4261..dd0173e 100644
--- a/frm/enums/utils.py
+++ b/frm/enums/utils.py
@@ -294,12 +294,13 @@ class CompoundingFreq(Enum):
             return 1.0 / (1.0 + zero_rate / self.periods_per_year) ** (self.periods_per_year * years)
         raise ValueError(f"Invalid compounding_frequency {self}")
 
-    def convert_rate_to(self, zero_rate: float, target_compounding_freq) -> float:
+    def convert_rate_to(self, zero_rate: float, target_compounding_freq, years: float=1.0) -> float:
+        # 'years' is the term of the rate. It only matters if either compounding frequency is SIMPLE.
         # First convert to continuous
         if self == CompoundingFreq.CONTINUOUS:
             continuous_rate = zero_rate
         elif self == CompoundingFreq.SIMPLE:
-            continuous_rate = np.log1p(zero_rate)
+            continuous_rate = np.log1p(zero_rate * years) / years
         else:
             continuous_rate = self.periods_per_year * np.log1p(zero_rate / self.periods_per_year)
 
@@ -307,7 +308,7 @@ class CompoundingFreq(Enum):
         if target_compounding_freq == CompoundingFreq.CONTINUOUS:
             return continuous_rate
         elif target_compounding_freq == CompoundingFreq.SIMPLE:
-            return np.expm1(continuous_rate)
+            return np.expm1(continuous_rate * years) / years
         else:
             return target_compounding_freq.periods_per_year * np.expm1(continuous_rate / target_compounding_freq.periods_per_year)
 
diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index ebe7abd..a01dec2 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -90,7 +90,10 @@ class ZeroCurve:
             pillar_df['discount_factor'] = compounding_freq.calc_discount_factor_from_zero_rate(
                 years=pillar_df['years'],
                 zero_rate=pillar_df['zero_rate'])
-            pillar_df['cczr'] = compounding_freq.convert_rate_to(zero_rate=pillar_df['zero_rate'], target_compounding_freq=CompoundingFreq.CONTINUOUS)
+            pillar_df['cczr'] = compounding_freq.convert_rate_to(
+                zero_rate=pillar_df['zero_rate'],
+                target_compounding_freq=CompoundingFreq.CONTINUOUS,
+                years=np.maximum(pillar_df['years'], 1e-6)) # small number to avoid division by zero
             pillar_df.drop(columns=['zero_rate'], inplace=True)
         else:
             # Add continuously compounded interest rate for internal use
-- 
2.43.0


From b1575b030cdcbaa1bc3c1f5b1f4b9568daa67020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:36 +0000
Subject: [PATCH 18/46] fix: FX term structures given by fixing, expiry or
 delivery date get the other date spot_offset business days away

---
 frm/term_structures/fx_helpers.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 8f26775..1598be1 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -21,7 +21,8 @@ def fx_term_structure_helper(df: pd.DataFrame,
                              cal: np.busdaycalendar,
                              rate_set_date_str: str) -> pd.DataFrame:
 
-    df['tenor'] = df['tenor'].apply(clean_tenor)
+    if 'tenor' in df.columns:
+        df['tenor'] = df['tenor'].apply(clean_tenor)
 
     mandatory_columns_at_least_one_of = [['tenor',rate_set_date_str,'delivery_date']]
     for column_set in mandatory_columns_at_least_one_of:
@@ -33,23 +34,25 @@ def fx_term_structure_helper(df: pd.DataFrame,
         df[column] = df[column].astype('datetime64[ns]')
 
     # Input hierarchy is:
-    # 1. Use the delivery date if it is available.
+    # 1. Use the delivery date if it is available (calculating the rate-set date from it if the rate-set date is not available).
     # 2. Otherwise, calculate the delivery date from the rate-set date ('fixing_date' for forwards, 'expiry_date' for options
     # 3. Otherwise, calculate the rate-set date and delivery date from the tenor
     for i, row in df.iterrows():
         if pd.notna(row['delivery_date']):
-            pass
+            if pd.isna(row[rate_set_date_str]):
+                delivery_date_np = row['delivery_date'].to_numpy().astype('datetime64[D]')
+                df.at[i,rate_set_date_str] = np.busday_offset(delivery_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
         elif pd.notna(row[rate_set_date_str]):
-            rate_set_date_np = row[rate_set_date_str].astype('datetime64[D]')
-            df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
-        elif pd.notna(row['tenor']):
+            rate_set_date_np = row[rate_set_date_str].to_numpy().astype('datetime64[D]')
+            df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=spot_offset, roll='following',busdaycal=cal)
+        elif 'tenor' in df.columns and pd.notna(row['tenor']):
             date_offset = tenor_to_date_offset(row['tenor'])
             rate_set_date = curve_date + date_offset
             rate_set_date_np = rate_set_date.to_numpy().astype('datetime64[D]')
             df.at[i,rate_set_date_str] = np.busday_offset(rate_set_date_np, offsets=0, roll='following',busdaycal=cal)
             df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=spot_offset, roll='following',busdaycal=cal)
         else:
-            raise ValueError("'delivery_date', '{rate_set_date_str}' and 'tenor' are all missing")
+            raise ValueError(f"'delivery_date', '{rate_set_date_str}' and 'tenor' are all missing")
 
     if 'tenor' in df.columns:
         time_column_order = ['tenor'] + [rate_set_date_str,'delivery_date']
-- 
2.43.0


From 001dca7a215deeccfaa49cbf35093951bc84dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 19/46] fix: apply a single termination flag to every period of
 a 30E/360 (ISDA) vector

---
 frm/utils/daycount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/daycount.py b/frm/utils/daycount.py
index b63cfaa..8b6fa11 100644
--- a/frm/utils/daycount.py
+++ b/frm/utils/daycount.py
@@ -108,7 +108,7 @@ def day_count(start_date,
             N = len(end_dti)
             is_end_date_on_termination = [False if i < (N-1)  else True for i in range(N)]
         else:
-            is_end_date_on_termination = np.atleast_1d(is_end_date_on_termination)
+            is_end_date_on_termination = np.broadcast_to(np.atleast_1d(is_end_date_on_termination), (len(end_dti),))
 
         result = np.array([_apply_logic(start, end, flag) for start, end, flag in zip(start_dti, end_dti, is_end_date_on_termination)])               
     else:
-- 
2.43.0


From 7178878e5b74cb522356e8bed4eb49f78f03e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 20/46] fix: RollConv.UNADJUSTED raised ValueError in schedule
 generation and payment dates

---
 frm/utils/schedule.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 08f5355..750695b 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -88,7 +88,12 @@ class BaseSchedule:
 
         # Apply np.busday_offset only to non-NaT dates
         adjusted_dates = np.empty_like(dates, dtype='datetime64[D]')
-        adjusted_dates[valid_dates_mask] = np.busday_offset(valid_dates, offsets=payment_delay, roll=self.roll_conv.value, busdaycal=self.cal)
+        if self.roll_conv == RollConv.UNADJUSTED and payment_delay == 0:
+            adjusted_dates[valid_dates_mask] = valid_dates
+        else:
+            # Unadjusted dates are not rolled, the payment delay is counted from the date itself
+            roll = 'preceding' if self.roll_conv == RollConv.UNADJUSTED else self.roll_conv.value
+            adjusted_dates[valid_dates_mask] = np.busday_offset(valid_dates, offsets=payment_delay, roll=roll, busdaycal=self.cal)
         adjusted_dates[~valid_dates_mask] = 'NaT'
 
         # Update DataFrame
@@ -460,6 +465,8 @@ def generate_date_schedule(
     """
     
     def busday_offset_timestamp(pd_timestamp, offsets, roll_conv, cal):
+        if roll_conv == RollConv.UNADJUSTED.value:
+            return pd_timestamp
         np_datetime64D = np.array([pd_timestamp]).astype('datetime64[D]')
         rolled_date_np = np.busday_offset(np_datetime64D, offsets=offsets, roll=roll_conv, busdaycal=cal)[0]
         return pd.Timestamp(rolled_date_np)
-- 
2.43.0


From 4e934bf62c58bb05aad1c179ea1ca46f7dc5a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 21/46] fix: schedule dates rolled on to the schedule's end or
 another date created spurious or zero length periods

---
 frm/utils/schedule.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 750695b..da28de5 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -491,8 +491,8 @@ def generate_date_schedule(
         
     # Implementation rationale:
     # - append to both start_dates and end_dates in while loop so don't have to consider edge case of list length = 1
-    # - Note the 'roll day' component must be applied inside the while loop due to holidays/weekends 
-    #   which could move a day past the while loop condition.
+    # - The while loop condition is on the unrolled dates, as holidays/weekends can move a rolled date
+    #   past the other end of the schedule (or on to the date of another period).
     i = 1
     start_dates = []
     end_dates = []
@@ -505,14 +505,17 @@ def generate_date_schedule(
 
     if direction == 'forward':
         current_date = apply_specific_day_roll(start_date + freq.date_offset, day_roll)
-        current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
-        
-        while current_date < end_date: 
-            start_dates.append(current_date)
-            end_dates.append(current_date)
+        previous_date = start_date_in_schedule
+
+        while current_date < end_date:
+            # Dates that roll on to (or past) the neighbouring dates do not start a new period
+            rolled_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
+            if previous_date < rolled_date < end_date_in_schedule:
+                start_dates.append(rolled_date)
+                end_dates.append(rolled_date)
+                previous_date = rolled_date
             current_date = start_date + freq.multiply_date_offset(i+1)
             current_date = apply_specific_day_roll(current_date, day_roll)
-            current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
             i += 1
 
         start_dates = [start_date_in_schedule] + start_dates
@@ -520,14 +523,17 @@ def generate_date_schedule(
         
     elif direction == 'backward':
         current_date = apply_specific_day_roll(end_date - freq.date_offset, day_roll)
-        current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
-        
-        while current_date > start_date:   
-            start_dates.append(current_date)
-            end_dates.append(current_date)
+        previous_date = end_date_in_schedule
+
+        while current_date > start_date:
+            # Dates that roll on to (or past) the neighbouring dates do not start a new period
+            rolled_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
+            if previous_date > rolled_date > start_date_in_schedule:
+                start_dates.append(rolled_date)
+                end_dates.append(rolled_date)
+                previous_date = rolled_date
             current_date = end_date - freq.multiply_date_offset(i+1)
             current_date = apply_specific_day_roll(current_date, day_roll)
-            current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
             i +=1
 
         start_dates.append(start_date_in_schedule)
-- 
2.43.0


From 58593c85b56d931db929ef31692dfadb08fd68bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 22/46] fix: stub rules raised an error when the whole schedule
 is a single generated period

---
 frm/utils/schedule.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index da28de5..d405f46 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -297,12 +297,12 @@ def make_schedule(
 
             if last_stub == Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                if first_stub == Stub.LONG:
+                if first_stub == Stub.LONG and len(d1) > 1:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             elif first_stub == Stub.NONE and last_stub != Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                if last_stub == Stub.LONG:
+                if last_stub == Stub.LONG and len(d1) > 1:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub in [Stub.SHORT, Stub.LONG] and last_stub in [Stub.SHORT, Stub.LONG]:
@@ -336,7 +336,7 @@ def make_schedule(
                 elif first_period_end == d2_backward[0]:
                     direction.append('backward')
                     first_stub = Stub.SHORT
-                elif first_period_end == d2_backward[1]:
+                elif len(d2_backward) > 1 and first_period_end == d2_backward[1]:
                     direction.append('backward')
                     first_stub = Stub.LONG
                 else:
@@ -351,7 +351,7 @@ def make_schedule(
                 elif last_period_start == d1_forward[-1]:
                     direction.append('forward')
                     last_stub = Stub.SHORT
-                elif last_period_start == d1_forward[-2]:
+                elif len(d1_forward) > 1 and last_period_start == d1_forward[-2]:
                     direction.append('forward')
                     last_stub = Stub.LONG
                 else:
@@ -385,7 +385,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(first_period_end, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = [start_date] + d1
                 d2 = [first_period_end] + d2
-                if last_stub == Stub.LONG:
+                if last_stub == Stub.LONG and len(d1) > 1:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub != Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub == Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
@@ -393,7 +393,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(start_date, last_period_start, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = d1 + [last_period_start]
                 d2 = d2 + [end_date]
-                if first_stub == Stub.LONG:
+                if first_stub == Stub.LONG and len(d1) > 1:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             else:
@@ -403,13 +403,13 @@ def make_schedule(
                 if first_stub == Stub.NONE:
                     # Forward date generation
                     d1, d2 = d1_forward, d2_forward
-                    if last_stub == Stub.LONG:
+                    if last_stub == Stub.LONG and len(d1) > 1:
                         d1 = d1[:-1]
                         d2 = d2[:-2] + [d2[-1]]
                 elif last_stub == Stub.NONE:
                     # Backward date generation
                     d1, d2 = d1_backward, d2_backward
-                    if first_stub == Stub.LONG:
+                    if first_stub == Stub.LONG and len(d1) > 1:
                         d1 = [d1[0]] + d1[2:]
                         d2 = d2[1:]
                 else:
-- 
2.43.0


From c83d415973af23208393e50b2e8fc628cf0718e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 23/46] fix: one of first_period_end and last_period_start was
 ignored, or an assertion raised, unless both aligned with the same schedule

---
 frm/utils/schedule.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index d405f46..5313336 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -358,6 +358,13 @@ def make_schedule(
                     # Need to construct schedule using last_period_start
                     last_stub = Stub.DEFINED_PER_LAST_PERIOD_START_DATE
 
+            # If both dates are specified and they don't align with the same generated schedule,
+            # the schedule has to be generated between them
+            if first_period_end is not None and last_period_start is not None \
+                    and (len(direction) < 2 or len(set(direction)) > 1):
+                first_stub = Stub.DEFINED_PER_FIRST_PERIOD_END_DATE
+                last_stub = Stub.DEFINED_PER_LAST_PERIOD_START_DATE
+
             # Step 2c : Set default stub values to:
             #              (i) NONE if other stub is SHORT/LONG
             #              (ii) SHORT if other stub is NONE
-- 
2.43.0


From f178270d30c63687ca44766a2ea649a88702e65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 24/46] fix: roll_user_specified_dates did not roll every user
 specified date, leaving gaps between periods

---
 frm/utils/schedule.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 5313336..cfb1169 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -422,6 +422,11 @@ def make_schedule(
                 else:
                     raise ValueError("Unexpected logic branch - please raise GitHub issue")
 
+    if roll_user_specified_dates and roll_conv != RollConv.UNADJUSTED:
+        # The generated dates are already rolled, but not every branch above rolls the user specified dates
+        d1, d2 = [[pd.Timestamp(d) for d in np.busday_offset(np.array(dates, dtype='datetime64[D]'), offsets=0, roll=roll_conv.value, busdaycal=cal)]
+                  for dates in (d1, d2)]
+
     schedule = pd.DataFrame({'period_start': d1, 'period_end': d2})
     return schedule
 
-- 
2.43.0


From 59bacf3b6d32bb37ed85705928efa2e3cd619413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 25/46] fix: NotionalSchedule rejected a notional amount per
 period

---
 frm/utils/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index cfb1169..35d2bb2 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -150,9 +150,9 @@ class NotionalSchedule(BaseSchedule):
         if notional_amount.shape == (1,):
             self.df['notional'] = notional_amount[0]
             self.df['notional_payment'] = 0
-        elif notional_amount.shape == self.df.shape[0]:
+        elif notional_amount.shape == (self.df.shape[0],):
             self.df['notional'] = notional_amount
-            self.df['notional_payment'] = notional_amount[:-1] - notional_amount[1:]
+            self.df['notional_payment'] = np.append(notional_amount[:-1] - notional_amount[1:], 0)
         else:
             raise ValueError("Invalid notional_amount shape")
 
-- 
2.43.0


From 4474ba9a5ca780b33941d3c1647eeb265c144140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 26/46] fix: a stub rule combined with first_period_end or
 last_period_start raised an error or merged the specified period away

---
 frm/utils/schedule.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 35d2bb2..8f4ae64 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -328,15 +328,19 @@ def make_schedule(
 
             # Step 2a : Check if the first_period_end matches any generated schedules
 
+            # A stub requested at the end without a specified date is generated towards that end
+            backward_allowed = last_period_start is not None or last_stub in [Stub.DEFAULT, Stub.NONE]
+            forward_allowed = first_period_end is not None or first_stub in [Stub.DEFAULT, Stub.NONE]
+
             direction = []
             if first_period_end is not None:
                 if first_period_end == d2_forward[0]:
                     direction.append('forward')
                     first_stub = Stub.NONE
-                elif first_period_end == d2_backward[0]:
+                elif backward_allowed and first_period_end == d2_backward[0]:
                     direction.append('backward')
                     first_stub = Stub.SHORT
-                elif len(d2_backward) > 1 and first_period_end == d2_backward[1]:
+                elif backward_allowed and len(d2_backward) > 1 and first_period_end == d2_backward[1]:
                     direction.append('backward')
                     first_stub = Stub.LONG
                 else:
@@ -348,10 +352,10 @@ def make_schedule(
                 if last_period_start == d1_backward[-1]:
                     direction.append('backward')
                     last_stub = Stub.NONE
-                elif last_period_start == d1_forward[-1]:
+                elif forward_allowed and last_period_start == d1_forward[-1]:
                     direction.append('forward')
                     last_stub = Stub.SHORT
-                elif len(d1_forward) > 1 and last_period_start == d1_forward[-2]:
+                elif forward_allowed and len(d1_forward) > 1 and last_period_start == d1_forward[-2]:
                     direction.append('forward')
                     last_stub = Stub.LONG
                 else:
@@ -392,7 +396,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(first_period_end, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = [start_date] + d1
                 d2 = [first_period_end] + d2
-                if last_stub == Stub.LONG and len(d1) > 1:
+                if last_stub == Stub.LONG and len(d1) > 2:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub != Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub == Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
@@ -400,7 +404,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(start_date, last_period_start, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = d1 + [last_period_start]
                 d2 = d2 + [end_date]
-                if first_stub == Stub.LONG and len(d1) > 1:
+                if first_stub == Stub.LONG and len(d1) > 2:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             else:
@@ -410,13 +414,13 @@ def make_schedule(
                 if first_stub == Stub.NONE:
                     # Forward date generation
                     d1, d2 = d1_forward, d2_forward
-                    if last_stub == Stub.LONG and len(d1) > 1:
+                    if last_stub == Stub.LONG and len(d1) > 2:
                         d1 = d1[:-1]
                         d2 = d2[:-2] + [d2[-1]]
                 elif last_stub == Stub.NONE:
                     # Backward date generation
                     d1, d2 = d1_backward, d2_backward
-                    if first_stub == Stub.LONG and len(d1) > 1:
+                    if first_stub == Stub.LONG and len(d1) > 2:
                         d1 = [d1[0]] + d1[2:]
                         d2 = d2[1:]
                 else:
-- 
2.43.0


From 01b89723b369264a2e13875b3578dc28de704447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:40 +0000
Subject: [PATCH 27/46] fix: ZeroCurve modified the caller's pillar_df, so it
 could not be used for a second curve

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index a01dec2..c26ca81 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -34,7 +34,7 @@ class ZeroCurve:
     
     def __post_init__(self, compounding_freq):
         
-        pillar_df = self.pillar_df
+        pillar_df = self.pillar_df.copy() # the caller's DataFrame is not to be modified
         if compounding_freq is None and 'zero_rate' in pillar_df.columns:
             raise ValueError("'compounding_freq' must be specified zero rates specified in 'pillar_df'")
             
-- 
2.43.0


From ef6f9c1a1469fecd96db3dee0fd2e8dd5b989ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:40 +0000
Subject: [PATCH 28/46] fix: ZeroCurve pillars given as days, and days queried
 as a Series, raised errors

---
 frm/term_structures/zero_curve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index c26ca81..967623f 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -119,8 +119,8 @@ class ZeroCurve:
                     x = [0.0] + pillar_df['years'].to_list()
                     y = [0.0] + np.log(pillar_df['discount_factor']).to_list()
                     self.cubic_spline_definition = splrep(x=x, y=y, k=3)
-                    dt = 1e-6 # small number to avoid division by zero
-                    first_row['cczr'] = -1 * splev(x=dt, tck=self.cubic_spline_definition, der=0) / dt
+                    Δt = 1e-6 # small number to avoid division by zero
+                    first_row['cczr'] = -1 * splev(x=Δt, tck=self.cubic_spline_definition, der=0) / Δt
                 case ZeroCurveInterpMethod.CUBIC_SPLINE_ON_CCZR:
                     x = pillar_df['years'].to_list()
                     y = pillar_df['cczr'].to_list()
@@ -349,7 +349,7 @@ class ZeroCurve:
             return pd.DataFrame({'years': years, 'cczr': cczr, 'discount_factor': discount_factor})
         else:
             if days is not None:
-                dates = self.curve_date + dt.timedelta(days=days)
+                dates = self.curve_date + pd.to_timedelta(days, unit='D')
 
             dates = pd.to_datetime(dates)
             if not(isinstance(dates, pd.DatetimeIndex)):
-- 
2.43.0


From 0619db70c1de6121a1758a31813e63ccd20e8a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:40 +0000
Subject: [PATCH 29/46] fix: ZeroCurve lookups by years raised ValueError for
 log-linear discount factors

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 967623f..64576f9 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -331,7 +331,7 @@ class ZeroCurve:
             raise ValueError('Only one input among days, date, or years is allowed.')            
         
         if years is not None:
-            if self.interp_method == 'linear_on_ln_discount':
+            if self.interp_method == ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
                 ln_df_interp = np.interp(x=years, xp=self.pillar_df['years'], fp= np.log(self.pillar_df['discount_factor']))
                 cczr = -1 * ln_df_interp / years
                 discount_factor = np.exp(ln_df_interp)
-- 
2.43.0


From 14a95cfd8fd552b5ccb1fa4f568342a62e46e288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:40 +0000
Subject: [PATCH 30/46] fix: ZeroCurve built from years did not cover the dates
 after the last whole year

---
 frm/term_structures/zero_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 64576f9..8257821 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -158,8 +158,8 @@ class ZeroCurve:
         if 'date' in self.pillar_df.columns:
             max_date = max(self.pillar_df['date'])
         else:
-            max_years = int(max(self.pillar_df['years']))
-            max_date = self.curve_date + relativedelta(years=max_years)
+            max_years = max(self.pillar_df['years'])
+            max_date = self.curve_date + relativedelta(years=int(max_years))
             while year_frac(self.curve_date, max_date, self.day_count_basis) < max_years:
                 max_date += dt.timedelta(days=1)
                 
-- 
2.43.0


From 2ca7aebb5672bea3282c8fe5af5e3228760ed6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:40 +0000
Subject: [PATCH 31/46] fix: ZeroCurve ignored extrap_method, dropping the
 dates outside its range and reordering the rest

---
 frm/term_structures/zero_curve.py | 35 +++++++++++--------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 8257821..8df8f97 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -369,31 +369,20 @@ class ZeroCurve:
             # Check if any of the dates are outside the available data
             min_date = self.daily_df['date'].min()
             below_range = dates < min_date
-            dates_below = []
-            if any(below_range):
-                bound_date = self.daily_df['date'].min()
-                for i,date in enumerate(dates[below_range]):
-                    print('Date', date.strftime('%Y-%m-%d'), 'is below the min available data of ' + bound_date.strftime('%Y-%m-%d') + msg)
-                    if self.extrap_method == 'none':
-                        dates_below.append(np.nan)
-                    elif self.extrap_method == 'flat':
-                        dates_below.append(bound_date)
-            
+            for date in dates[below_range]:
+                print('Date', date.strftime('%Y-%m-%d'), 'is below the min available data of ' + min_date.strftime('%Y-%m-%d') + msg)
+
             max_date = self.daily_df['date'].max()
             above_range = dates > max_date
-            dates_above = []
-            if any(above_range):
-                bound_date = self.daily_df['date'].max()
-                for i,date in enumerate(dates[above_range]):
-                    print('Date', date.strftime('%Y-%m-%d'), 'is above the max available data of ' + bound_date.strftime('%Y-%m-%d') + msg)
-                    if self.extrap_method == 'none':
-                        dates_above.append(np.nan)
-                    elif self.extrap_method == 'flat':
-                        dates_above.append(bound_date)
-          
-            in_range = np.logical_and(np.logical_not(below_range),np.logical_not(above_range))
-            cleaned_dates = dates_below + list(dates[in_range].values) + dates_above
-            df = pd.merge(pd.DataFrame(data=cleaned_dates, columns=['date']), self.daily_df, left_on='date',right_on='date', how='left')
+            for date in dates[above_range]:
+                print('Date', date.strftime('%Y-%m-%d'), 'is above the max available data of ' + max_date.strftime('%Y-%m-%d') + msg)
+
+            # The order of the dates is retained
+            if self.extrap_method == ZeroCurveExtrapMethod.FLAT:
+                cleaned_dates = dates.where(~below_range, min_date).where(~above_range, max_date)
+            else:
+                cleaned_dates = dates.where(~(below_range | above_range), pd.NaT)
+            df = pd.merge(pd.DataFrame({'date': cleaned_dates}), self.daily_df, left_on='date',right_on='date', how='left')
             return df    
 
        
-- 
2.43.0


From 9282d59082fb02e3414ee9a164bb965d7237dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 32/46] fix: ZeroCurve with a pillar on the curve date raised
 ValueError

---
 frm/term_structures/zero_curve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 8df8f97..dc81ec7 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -96,6 +96,8 @@ class ZeroCurve:
                 years=np.maximum(pillar_df['years'], 1e-6)) # small number to avoid division by zero
             pillar_df.drop(columns=['zero_rate'], inplace=True)
         else:
+            # The discount factor at t=0 is 1.0 by definition, this pillar is added below
+            pillar_df = pillar_df[pillar_df['years'] != 0].reset_index(drop=True)
             # Add continuously compounded interest rate for internal use
             pillar_df['cczr'] = -1 * np.log(pillar_df['discount_factor']) / pillar_df['years']
 
@@ -135,6 +137,8 @@ class ZeroCurve:
 
         else:
             match self.interp_method:
+                case ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
+                    pass
                 case ZeroCurveInterpMethod.CUBIC_SPLINE_ON_LN_DISCOUNT:
                     x = pillar_df['years'].to_list()
                     y = np.log(pillar_df['discount_factor']).to_list()
-- 
2.43.0


From 6d5944dd64474afeb1be6ac9853012e9886e8031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 33/46] fix: ZeroCurve zero rates on the curve date were NaN

---
 frm/term_structures/zero_curve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index dc81ec7..2c0c97f 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -199,6 +199,9 @@ class ZeroCurve:
         else:
             raise ValueError(f"Invalid interpolation method {self.interp_method}")
 
+        # The zero rate at t=0 is not defined by its discount factor
+        self.daily_df.loc[self.daily_df['years'] == 0, 'cczr'] = self.pillar_df['cczr'].iloc[0]
+
        
     def flat_shift(self, 
                    basis_points: float=1) -> 'ZeroCurve':
-- 
2.43.0


From 3609aff739137539ba10bd9449496d0e1e1a9e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 34/46] fix: ZeroCurve.flat_shift raised TypeError

---
 frm/term_structures/zero_curve.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 2c0c97f..5b014f7 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -205,17 +205,18 @@ class ZeroCurve:
        
     def flat_shift(self, 
                    basis_points: float=1) -> 'ZeroCurve':
-        dates = list(self.pillar_df.keys())
-        years = year_frac(self.curve_date, dates, self.day_count_basis)
-        shifted = - np.log(list(self.pillar_df.values)) / years + basis_points / 10000
-        shifted = pd.DataFrame({'date': dates,
-                                'years': years,
-                                'discount_factor':np.exp(-shifted * years)})
-        shifted.loc[0,'discount_factor'] = 1.0 # set the discount factor on the curve date to be 1.0
-        return ZeroCurve(curve_date=self.curve_date, 
+        x_column_name = 'date' if 'date' in self.pillar_df.columns else 'years'
+        pillar_df = self.pillar_df[self.pillar_df['years'] != 0] # the discount factor on the curve date stays 1.0
+        shift = np.exp(-1 * basis_points / 10000 * pillar_df['years'])
+        shifted = pd.DataFrame({x_column_name: pillar_df[x_column_name],
+                                'discount_factor': pillar_df['discount_factor'] * shift})
+        return ZeroCurve(curve_date=self.curve_date,
                          pillar_df=shifted,
-                         day_count_basis=self.day_count_basis)
-                   
+                         day_count_basis=self.day_count_basis,
+                         cal=self.cal,
+                         interp_method=self.interp_method,
+                         extrap_method=self.extrap_method)
+
     def get_forward_rates(self,
                           period_start: Union[pd.Timestamp, np.datetime64, dt.datetime, dt.date, pd.Series, pd.DatetimeIndex],
                           period_end: Union[pd.Timestamp, np.datetime64, dt.datetime, dt.date, pd.Series, pd.DatetimeIndex],
-- 
2.43.0


From 7dd71f26175030325d8a569324065b748766ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 35/46] fix: averaged forward rates under ACT/ACT were NaN

---
 frm/term_structures/zero_curve.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 5b014f7..5e438ed 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -245,7 +245,12 @@ class ZeroCurve:
             dates = pd.date_range(start=period_start.min(), end=period_end.max(), freq='D')
             discount_factors = self.get_discount_factors(dates=dates)
             daily_interest_multiplier = discount_factors[:-1] / discount_factors[1:]
-            daily_simple_interest_rate = (daily_interest_multiplier - 1) * self.day_count_basis.days_per_year
+            if self.day_count_basis == DayCountBasis.ACT_ACT:
+                # The days per year is per the year in which each day falls
+                days_per_year = 1 / np.asarray(year_frac(dates[:-1], dates[1:], self.day_count_basis))
+            else:
+                days_per_year = self.day_count_basis.days_per_year
+            daily_simple_interest_rate = (daily_interest_multiplier - 1) * days_per_year
             dates_np = dates.to_numpy(dtype='datetime64[D]')
             busday_flag = pd.Series(np.is_busday(dates_np, busdaycal=self.cal), index=dates)
             
-- 
2.43.0


From 15db07d45b8620fd0782a1e8e3e04c7eb06fb8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:52 +0000
Subject: [PATCH 36/46] fix: overnight fixings dropped the days before a
 period's first fixing, and periods ending on a weekend were refused

---
 .../historical_swap_index_fixings.py          | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index 63fbae8..e765c21 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -37,15 +37,21 @@ class RFRFixings(HistoricalSwapIndexFixings):
         observations_start = period_start
         observations_end = period_end - pd.DateOffset(days=1)
 
-        mask = np.logical_and(self.fixings['date'] >= observations_start.min(),
-                              self.fixings['date'] <= observations_end.max())
-        applicable_fixings = self.fixings.loc[mask,:].sort_values('date', ascending=True).reset_index(drop=True)
+        sorted_fixings = self.fixings.sort_values('date', ascending=True).reset_index(drop=True)
 
+        # There are no fixings on a weekend, the preceding fixing applies
+        last_fixing_required = np.busday_offset(np.datetime64(observations_end.max(), 'D'), offsets=0, roll='backward')
 
-        if observations_end.max() > applicable_fixings['date'].max() \
-            or observations_end.min() < applicable_fixings['date'].min():
+        if last_fixing_required > np.datetime64(sorted_fixings['date'].max(), 'D') \
+            or observations_start.min() < sorted_fixings['date'].min():
             raise ValueError('Observation period extends beyond available fixing data.')
 
+        # Observation periods which start on a non-fixing date use the preceding fixing
+        first_fixing_date = sorted_fixings.loc[sorted_fixings['date'] <= observations_start.min(), 'date'].max()
+        mask = np.logical_and(sorted_fixings['date'] >= first_fixing_date,
+                              sorted_fixings['date'] <= observations_end.max())
+        applicable_fixings = sorted_fixings.loc[mask,:].reset_index(drop=True)
+
         coupon_rates = [self._calculate_coupon_rate(s, e, applicable_fixings, cpn_calc_method)
                                    for s, e in zip(observations_start, observations_end)]
         return np.array(coupon_rates)
@@ -57,14 +63,12 @@ class RFRFixings(HistoricalSwapIndexFixings):
             fixings: pd.DataFrame,
             method: RFRFixingCalcMethod
     ):
-        mask = (fixings['date'] >= observation_start) & (fixings['date'] <= observation_end)
-        periods_ois_fixings = fixings.loc[mask]
-
         if method == RFRFixingCalcMethod.SIMPLE_AVERAGE:
-            return periods_ois_fixings['fixing'].mean()
+            mask = (fixings['date'] >= observation_start) & (fixings['date'] <= observation_end)
+            return fixings.loc[mask, 'fixing'].mean()
 
         date_range = pd.date_range(start=observation_start, end=observation_end, freq='D')
-        df = pd.merge_asof(pd.DataFrame({'date': date_range}), periods_ois_fixings, on='date', direction='backward')
+        df = pd.merge_asof(pd.DataFrame({'date': date_range}), fixings, on='date', direction='backward')
 
         if method == RFRFixingCalcMethod.DAILY_COMPOUNDED:
             df['daily_interest'] = 1 + df['fixing'] / self.day_count_basis.days_per_year
-- 
2.43.0


From 5b47c0d490368840f83c3de430a2c7469cc23a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:52 +0000
Subject: [PATCH 37/46] fix: term fixings listed newest first could not be
 looked up

---
 frm/term_structures/historical_swap_index_fixings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index e765c21..2ba19ec 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -94,7 +94,7 @@ class TermFixings(HistoricalSwapIndexFixings):
         date_df_sorted = date_df.sort_values('date').reset_index(drop=False)
 
         # Perform merge_asof with the sorted dates
-        df = pd.merge_asof(date_df_sorted, self.fixings, on='date', direction='backward')
+        df = pd.merge_asof(date_df_sorted, self.fixings.sort_values('date'), on='date', direction='backward')
 
         df_sorted_back = df.sort_values('index').set_index('index') # Restore the original order of the input dates
 
-- 
2.43.0


From aa7d08dada04ab34546678417b1426106abf460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:52 +0000
Subject: [PATCH 38/46] fix: TermSwapCurve replaced its forward rates by
 historical fixings and left past periods NaN

---
 frm/term_structures/swap_curve.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/frm/term_structures/swap_curve.py b/frm/term_structures/swap_curve.py
index 1debf8b..70b6410 100644
--- a/frm/term_structures/swap_curve.py
+++ b/frm/term_structures/swap_curve.py
@@ -38,17 +38,19 @@ class TermSwapCurve:
         #   Would be nice to have public API to call for data whenever needed for examples.
         # Get forward fixings
         mask_future = period_start >= self.zero_curve.curve_date
-        forward_fixings = self.zero_curve.get_forward_rates(
-            period_start=period_start[mask_future],
-            period_end=period_end[mask_future],
-            forward_rate_type=cpn_calc_method)
-        fixings[mask_future] = forward_fixings
+        if mask_future.any():
+            forward_fixings = self.zero_curve.get_forward_rates(
+                period_start=period_start[mask_future],
+                period_end=period_end[mask_future],
+                forward_rate_type=cpn_calc_method)
+            fixings[mask_future] = forward_fixings
 
         # Get historical fixings
-        mask_historical = period_start >= self.zero_curve.curve_date
-        historical_fixings = self.historical_fixings.index_historical_fixings(
-            fixing_dates=period_start[mask_historical])
-        fixings[mask_historical] = historical_fixings
+        mask_historical = period_start < self.zero_curve.curve_date
+        if mask_historical.any():
+            historical_fixings = self.historical_fixings.index_historical_fixings(
+                fixing_dates=period_start[mask_historical])
+            fixings[mask_historical] = historical_fixings
 
         return fixings
 
-- 
2.43.0


From 948f9efc84ebf1efba523c8a89e6cda8f76244f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:33 +0000
Subject: [PATCH 39/46] fix: averaged overnight coupons that straddle the curve
 date were compounded

---
 frm/term_structures/swap_curve.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/frm/term_structures/swap_curve.py b/frm/term_structures/swap_curve.py
index 70b6410..720537a 100644
--- a/frm/term_structures/swap_curve.py
+++ b/frm/term_structures/swap_curve.py
@@ -120,6 +120,18 @@ class RFRSwapCurve:
             period_end=crossover_period_end,
             forward_rate_type=cpn_calc_method)
 
+        if cpn_calc_method in {RFRFixingCalcMethod.WEIGHTED_AVERAGE, RFRFixingCalcMethod.SIMPLE_AVERAGE}:
+            # An average is not compounded. It is over the calendar days, or over the business days
+            if cpn_calc_method == RFRFixingCalcMethod.WEIGHTED_AVERAGE:
+                historical_days = (curve_datetime_index - pd.DatetimeIndex(crossover_period_start)).days.values
+                future_days = (pd.DatetimeIndex(crossover_period_end) - curve_datetime_index).days.values
+            else:
+                start, mid, end = [pd.DatetimeIndex(dates).values.astype('datetime64[D]')
+                                   for dates in (crossover_period_start, curve_datetime_index, crossover_period_end)]
+                historical_days = np.busday_count(start, mid, busdaycal=self.zero_curve.cal)
+                future_days = np.busday_count(mid, end, busdaycal=self.zero_curve.cal)
+            return (historical_days * historical_component + future_days * future_component) / (historical_days + future_days)
+
         crossover_rate = (historical_year_frac * historical_component
                           + (1 + historical_year_frac * historical_component) * future_year_frac * future_component) \
                          / (historical_year_frac + future_year_frac)
-- 
2.43.0


From d02da67e57d9b01a1b9c20a560476e2d3bf2ada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 40/46] fix: legs and swaps could not be imported

---
 frm/instruments/leg.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 1e220c1..1e86bd2 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -12,7 +12,6 @@ from frm.term_structures.swap_curve import TermSwapCurve, RFRSwapCurve
 from frm.utils import CouponSchedule, year_frac, MarketDataNotAvailableError
 from frm.enums import CompoundingFreq, TermRate, RFRFixingCalcMethod, DayCountBasis, PayRcv
 from frm.term_structures.zero_curve import ZeroCurve
-from frm.term_structures.zero_curve_helpers import discount_factor_from_zero_rate
 from scipy.optimize import root_scalar
 
 
@@ -393,10 +392,9 @@ class ZerocouponLeg(Leg):
     def calc_coupon_payment(self, coupon_override=None):
         if coupon_override is not None:
             self.schedule.df['zero_rate'] = coupon_override
-        multiplier = (1.0 / discount_factor_from_zero_rate(
+        multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=self.schedule.df['period_yearfrac'],
-            zero_rate=self.schedule.df['zero_rate'],
-            compounding_freq=self.compounding_freq)) - 1.0
+            zero_rate=self.schedule.df['zero_rate'])) - 1.0
         self.schedule.df['coupon_payment'] = self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
@@ -408,10 +406,9 @@ class ZerocouponLeg(Leg):
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE,
                                          day_count_basis=self.day_count_basis)
-        multiplier = (1.0 / discount_factor_from_zero_rate(
+        multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=accrued_period_yearfrac,
-            zero_rate=self.schedule.df['zero_rate'],
-            compounding_freq=self.compounding_freq)) - 1.0
+            zero_rate=self.schedule.df['zero_rate'])) - 1.0
         accrued_interest =  self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
         return accrued_interest
 
-- 
2.43.0


From ef7144fc4c50af6992f99ffe63789d16334346eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 41/46] fix: pay leg coupons had the sign of receive leg
 coupons

---
 frm/instruments/leg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 1e86bd2..5127bea 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -264,7 +264,7 @@ class FixedLeg(Leg):
     def calc_coupon_payment(self, coupon_override=None):
         if coupon_override is not None:
             self.schedule.df['fixed_rate'] = coupon_override
-        self.schedule.df['coupon_payment'] = self.pay_rcv.multiplier * self.schedule.df['notional'] * self.schedule.df['fixed_rate'] * self.schedule.df['period_yearfrac']
+        self.schedule.df['coupon_payment'] = self.schedule.df['notional'] * self.schedule.df['fixed_rate'] * self.schedule.df['period_yearfrac']
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
 
@@ -364,7 +364,7 @@ class FloatRFRLeg(Leg):
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis)
-        accrued_interest = (self.pay_rcv.multiplier * self.schedule.df['notional'][current_period_idxs]
+        accrued_interest = (self.schedule.df['notional'][current_period_idxs]
                             * self.schedule.df['coupon_rate'][current_period_idxs]
                             * accrued_period_yearfrac).sum()
         return accrued_interest
@@ -395,7 +395,7 @@ class ZerocouponLeg(Leg):
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=self.schedule.df['period_yearfrac'],
             zero_rate=self.schedule.df['zero_rate'])) - 1.0
-        self.schedule.df['coupon_payment'] = self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
+        self.schedule.df['coupon_payment'] = self.schedule.df['notional'] * multiplier
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
 
@@ -409,7 +409,7 @@ class ZerocouponLeg(Leg):
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=accrued_period_yearfrac,
             zero_rate=self.schedule.df['zero_rate'])) - 1.0
-        accrued_interest =  self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
+        accrued_interest =  self.schedule.df['notional'] * multiplier
         return accrued_interest
 
     def _get_solved_field_name(self):
-- 
2.43.0


From 7e08a6501562f20af206b613617da94346192a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 42/46] fix: accrued interest included every coupon, and was
 not limited to the current period for zero coupon legs

---
 frm/instruments/leg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 5127bea..9d60164 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -145,7 +145,7 @@ class Leg(ABC):
             mask = (self.schedule.df['coupon_payment_date'] > frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] <= frm.utils.VALUE_DATE)
         if mask.sum() > 1:
             warnings.warn('Multiple periods found for unsettled cashflow calculation.')
-        unsettled_cashflows = self.schedule.df['coupon_payment'].sum()
+        unsettled_cashflows = self.schedule.df['coupon_payment'][mask].sum()
 
         if frm.utils.LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW:
             if unsettled_cashflows > 0:
@@ -408,8 +408,8 @@ class ZerocouponLeg(Leg):
                                          day_count_basis=self.day_count_basis)
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=accrued_period_yearfrac,
-            zero_rate=self.schedule.df['zero_rate'])) - 1.0
-        accrued_interest =  self.schedule.df['notional'] * multiplier
+            zero_rate=self.schedule.df['zero_rate'][current_period_idxs])) - 1.0
+        accrued_interest = (self.schedule.df['notional'][current_period_idxs] * multiplier).sum()
         return accrued_interest
 
     def _get_solved_field_name(self):
-- 
2.43.0


From 383200fbaada9710e311158711856334e3ac366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 43/46] fix: the non-current value of a leg left out its
 coupons

---
 frm/instruments/leg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 9d60164..edaf1e0 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -208,7 +208,7 @@ class Leg(ABC):
         else:
             current_period_idxs = self.schedule.df['coupon_payment_date'] < value_date_plus_one_year
         current += self.schedule.df['coupon_payment_pv'][current_period_idxs].sum()
-        non_current += self.schedule.df['notional_payment_pv'][~current_period_idxs].sum()
+        non_current += self.schedule.df['coupon_payment_pv'][~current_period_idxs].sum()
 
         return current, non_current
 
-- 
2.43.0


From 175e0cf1b839770d5f89fe291f05658441eabd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:14 +0000
Subject: [PATCH 44/46] fix: floating legs were valued at zero, their fixings
 were never looked up

---
 frm/instruments/leg.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index edaf1e0..10947cb 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -306,7 +306,13 @@ class FloatTermLeg(Leg):
         if self.term_swap_curve is None:
             raise MarketDataNotAvailableError('Term Swap curve not available.')
 
+        mask = self.schedule.df['period_start'].notnull() # the initial exchange of notionals has no fixing
         self.schedule.df['fixing'] = np.nan
+        self.schedule.df.loc[mask, 'fixing'] = self.term_swap_curve.get_fixings(
+            period_start=pd.DatetimeIndex(self.schedule.df['period_start'][mask]),
+            period_end=pd.DatetimeIndex(self.schedule.df['period_end'][mask]),
+            fixing_freq=self.schedule.freq,
+            cpn_calc_method=self.forward_rate_type)
         if coupon_override is not None:
             self.schedule.df['spread'] = coupon_override
         self.schedule.df['coupon_rate'] = self.schedule.df['fixing'] + self.schedule.df['spread']
@@ -320,7 +326,7 @@ class FloatTermLeg(Leg):
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis)
         accrued_interest = (self.schedule.df['notional'][current_period_idxs]
-                            * self.schedule.df['spread'][current_period_idxs]
+                            * self.schedule.df['coupon_rate'][current_period_idxs]
                             * accrued_period_yearfrac).sum()
         return accrued_interest
 
@@ -351,7 +357,12 @@ class FloatRFRLeg(Leg):
         if self.rfr_swap_curve is None:
             raise MarketDataNotAvailableError('OIS curve not available.')
 
-        self.schedule.df['fixing'] = np.nan # TODO
+        mask = self.schedule.df['period_start'].notnull() # the initial exchange of notionals has no fixing
+        self.schedule.df['fixing'] = np.nan
+        self.schedule.df.loc[mask, 'fixing'] = self.rfr_swap_curve.get_fixings(
+            period_start=pd.DatetimeIndex(self.schedule.df['period_start'][mask]),
+            period_end=pd.DatetimeIndex(self.schedule.df['period_end'][mask]),
+            cpn_calc_method=self.forward_rate_type)
         if coupon_override is not None:
             self.schedule.df['spread'] = coupon_override
         self.schedule.df['coupon_rate'] = self.schedule.df['fixing'] + self.schedule.df['spread']
-- 
2.43.0


From 5008f431273b6451f9b6a79ef457342800a0fc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:00 +0000
Subject: [PATCH 45/46] fix: solving for a leg's rate left the payments of the
 trial rates behind, so accrued interest was wrong afterwards

---
 frm/instruments/leg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 10947cb..2c34e6e 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -117,7 +117,7 @@ class Leg(ABC):
         return solved_value
 
     def _solver_helper(self, solved_fieldname, target_value):
-        field_original_value = self.schedule.df[solved_fieldname].values.copy()
+        original_df = self.schedule.df.copy()
 
         def objective_function(overide):
             return self.calc_dirty_pv(coupon_override=overide) - target_value
@@ -129,8 +129,8 @@ class Leg(ABC):
             if solution.converged:
                 solved_value = solution.root
         finally:
-            # Ensure reset, even if the solver fails
-            self.schedule.df[solved_fieldname] = field_original_value
+            # Ensure reset, even if the solver fails. The payments and rates calculated for the trial values are reset too.
+            self.schedule.df = original_df
 
             return solved_value
 
-- 
2.43.0


From fd21d38f0a7fa8e0036a1e40197a302d12113a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:00 +0000
Subject: [PATCH 46/46] fix: accrued interest of a leg that was not valued
 before raised KeyError

---
 frm/instruments/leg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 2c34e6e..77206a9 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -135,6 +135,7 @@ class Leg(ABC):
             return solved_value
 
     def calc_accrued_interest(self):
+        self.calc_coupon_payment()
         # Leg specific accrued interest calculation
         accrued_interest = self._calc_accrued_interest()
 
-- 
2.43.0

